#include "mc.h"
#include <ftw.h>

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <typeinfo>
#include <unordered_set>

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>

namespace mc
{

namespace
{

const unsigned maxChoices = 1 << 14;
const unsigned maxWorkers = 64;

struct Slot
{
	std::atomic<int> busy;
	std::atomic<long long> startMs;
	std::atomic<unsigned> family;
	std::atomic<unsigned long long> index;
	std::atomic<unsigned> nChoices;
	std::atomic<unsigned long long> execs;
	std::atomic<unsigned long long> started;
	unsigned choices[maxChoices];
};

struct Shared
{
	std::atomic<unsigned long long> nextCase;
	std::atomic<int> stop;
	std::atomic<int> unlisted;
	Slot slots[maxWorkers];
};

Shared* g_shared = nullptr;
FILE* g_noteFile = nullptr;
Slot* g_slot = nullptr;

struct Found
{
	std::string key, msg;
	unsigned family;
	unsigned long long index;
	std::vector<unsigned> choices;
	// Worker that ran it and how many cases the worker had started by then, this one included.
	int worker;
	unsigned long long started;
};

// A case: family and index in it.
typedef std::pair<unsigned, unsigned long long> CaseId;

// Marks the start of a worker process in the list of cases a worker ran.
const std::uint64_t newProcess = ~std::uint64_t(0);

long long nowMs()
{
	return std::chrono::duration_cast<std::chrono::milliseconds>(
		std::chrono::steady_clock::now().time_since_epoch()).count();
}

std::string vfmt(const char* f, va_list args)
{
	va_list copy;
	va_copy(copy, args);
	int n = vsnprintf(nullptr, 0, f, copy);
	va_end(copy);
	std::string s(n + 1, '\0');
	vsnprintf(&s[0], s.size(), f, args);
	s.resize(n);
	return s;
}

std::string jsonStr(const std::string& s)
{
	std::string r = "\"";
	for (unsigned char c : s)
	{
		if (c == '"' || c == '\\')
		{
			r += '\\';
			r += c;
		}
		else if (c < 0x20 || c >= 0x7f)
			r += fmt("\\u%04x", c);
		else
			r += c;
	}
	return r + "\"";
}

std::unordered_set<std::uint64_t> g_states;
std::map<std::string, std::uint64_t> g_counts;

// The next choice sequence of a case in depth-first order; false if there is none.
bool nextChoices(const Ctx& ctx, std::vector<unsigned>& prefix)
{
	prefix = ctx.m_choices;
	while (!prefix.empty() && prefix.back() + 1 >= ctx.m_limits[prefix.size() - 1])
		prefix.pop_back();
	if (prefix.empty())
		return false;
	++prefix.back();
	return true;
}

// Runs one execution. Returns true and fills v on a violation.
bool execute(const Family& family, unsigned long long index, Ctx& ctx, Violation& v)
{
	try
	{
		family.body(ctx, index);
		return false;
	}
	catch (const Violation& e)
	{
		v = e;
	}
	catch (const std::exception& e)
	{
		v.key = std::string("exception:") + typeid(e).name();
		v.msg = std::string("uncaught exception: ") + e.what();
	}
	return true;
}

void appendFound(FILE* f, const Found& found)
{
	// key \t msg \t family \t index \t choices
	auto clean = [](std::string s)
	{
		for (char& c : s)
		{
			if (c == '\t' || c == '\n')
				c = ' ';
		}
		return s;
	};
	fprintf(f, "V\t%s\t%s\t%u\t%llu\t%llu\t", clean(found.key).c_str(), clean(found.msg).c_str(),
		found.family, found.index, found.started);
	for (unsigned c : found.choices)
		fprintf(f, "%u,", c);
	fprintf(f, "\n");
	fflush(f);
}

struct Locator
{
	std::vector<unsigned long long> first;
	unsigned long long total = 0;
	void locate(unsigned long long flat, unsigned& family, unsigned long long& index) const
	{
		family = unsigned(std::upper_bound(first.begin(), first.end(), flat) - first.begin()) - 1;
		index = flat - first[family];
	}
};

std::set<std::string> loadKnown(const std::string& dir, const std::string& property,
	std::map<std::string, std::string>& text)
{
	std::set<std::string> keys;
	std::ifstream f(dir + "/known-findings.txt");
	std::string line;
	std::string prefix = "known: property=" + property + " key=";
	while (std::getline(f, line))
	{
		if (line.compare(0, prefix.size(), prefix) != 0)
			continue;
		std::string rest = line.substr(prefix.size());
		std::size_t sp = rest.find(' ');
		std::string key = rest.substr(0, sp);
		keys.insert(key);
		text[key] = sp == std::string::npos ? "" : rest.substr(sp + 1);
	}
	return keys;
}

std::string keyToken(std::string key)
{
	for (char& c : key)
	{
		if (c == ' ' || c == '\t' || c == '\n')
			c = '_';
	}
	return key;
}

void workerMain(const Spec& spec, const Locator& loc, int w, bool thorough, double deadlineMs,
	const std::string& outPath, const std::set<std::string>& known,
	unsigned long long resumeCase, bool resume, std::vector<unsigned> resumeChoices)
{
	g_slot = &g_shared->slots[w];
	if (spec.workerInit)
		spec.workerInit();
	FILE* out = fopen(outPath.c_str(), "a");
	int history = open((outPath + ".history").c_str(), O_WRONLY | O_CREAT | O_APPEND, 0666);
	auto remember = [&](std::uint64_t entry)
	{
		if (write(history, &entry, sizeof(entry)) != sizeof(entry))
			_exit(3);
		g_slot->started++;
	};
	remember(newProcess);
	std::uint64_t execs = 0, steps = 0, cases = 0;
	std::vector<std::uint64_t> familyExecs(spec.families.size()), familyCases(spec.families.size());
	std::vector<std::string> samples;
	std::set<std::string> seen;
	bool complete = true;
	while (true)
	{
		unsigned long long flat;
		std::vector<unsigned> prefix;
		if (resume)
		{
			flat = resumeCase;
			prefix = resumeChoices;
			resume = false;
		}
		else
		{
			if (g_shared->stop.load() || nowMs() > deadlineMs)
			{
				complete = g_shared->nextCase.load() >= loc.total;
				break;
			}
			flat = g_shared->nextCase++;
			if (flat >= loc.total)
				break;
		}
		unsigned family;
		unsigned long long index;
		loc.locate(flat, family, index);
		g_slot->family = family;
		g_slot->index = flat;
		remember(flat);
		++cases;
		++familyCases[family];
		while (true)
		{
			Ctx ctx;
			ctx.m_thorough = thorough;
			ctx.m_choices = prefix;
			g_slot->nChoices = unsigned(std::min<std::size_t>(prefix.size(), maxChoices));
			for (unsigned i = 0; i < g_slot->nChoices; ++i)
				g_slot->choices[i] = prefix[i];
			g_slot->startMs = nowMs();
			g_slot->busy = 1;
			Violation v;
			bool bad = execute(spec.families[family], index, ctx, v);
			g_slot->busy = 0;
			g_slot->execs++;
			++execs;
			++familyExecs[family];
			steps += ctx.m_steps;
			for (auto& s : ctx.m_samples)
			{
				if (samples.size() < 3)
					samples.push_back("[" + spec.families[family].name + "] " + s);
			}
			ctx.m_choices.resize(ctx.m_pos);
			ctx.m_limits.resize(ctx.m_pos);
			if (bad)
			{
				std::string key = keyToken(v.key);
				if (seen.insert(key).second)
				{
					appendFound(out, Found{key, v.msg, family, index,
						ctx.m_choices.size() < prefix.size() ? prefix : ctx.m_choices, w, g_slot->started});
					if (!known.count(key) && ++g_shared->unlisted >= 4)
						g_shared->stop = 1;
				}
			}
			// Next choice sequence in depth-first order.
			if (!nextChoices(ctx, prefix))
				break;
			if (g_shared->stop.load() || nowMs() > deadlineMs)
			{
				complete = false;
				break;
			}
		}
	}
	fprintf(out, "S\t%llu\t%llu\t%llu\t%d\n", (unsigned long long)execs, (unsigned long long)steps,
		(unsigned long long)cases, complete ? 1 : 0);
	for (std::size_t i = 0; i < familyExecs.size(); ++i)
	{
		fprintf(out, "F\t%zu\t%llu\t%llu\n", i, (unsigned long long)familyExecs[i],
			(unsigned long long)familyCases[i]);
	}
	for (auto& c : g_counts)
		fprintf(out, "C\t%s\t%llu\n", c.first.c_str(), (unsigned long long)c.second);
	for (auto& s : samples)
	{
		std::string t = s;
		std::replace(t.begin(), t.end(), '\n', ' ');
		std::replace(t.begin(), t.end(), '\t', ' ');
		fprintf(out, "X\t%s\n", t.c_str());
	}
	fclose(out);
	FILE* st = fopen((outPath + ".states").c_str(), "ab");
	for (std::uint64_t h : g_states)
		fwrite(&h, sizeof(h), 1, st);
	fclose(st);
	fflush(nullptr);
	_exit(0);
}

// Runs every execution of a case, up to the one with the choices if there are any.
void runCase(const Spec& spec, const CaseId& id, const std::vector<unsigned>* upTo, bool thorough)
{
	std::vector<unsigned> prefix;
	while (true)
	{
		Ctx ctx;
		ctx.m_thorough = thorough;
		ctx.m_choices = prefix;
		// Executions whose choices extend the prefix with zeros come first.
		if (upTo)
		{
			std::vector<unsigned> padded = prefix;
			padded.resize(std::max(prefix.size(), upTo->size()), 0);
			if (padded >= *upTo)
				return;
		}
		Violation v;
		execute(spec.families[id.first], id.second, ctx, v);
		ctx.m_choices.resize(ctx.m_pos);
		ctx.m_limits.resize(ctx.m_pos);
		if (!nextChoices(ctx, prefix))
			return;
	}
}

int replayOne(const Spec& spec, const std::vector<CaseId>& before, bool fromStart, unsigned family,
	unsigned long long index, const std::vector<unsigned>& choices, bool thorough,
	const std::string& outPath)
{
	// Child process: writes notes and the verdict.
	if (spec.workerInit)
		spec.workerInit();
	for (const CaseId& id : before)
		runCase(spec, id, nullptr, thorough);
	if (fromStart)
		runCase(spec, CaseId(family, index), &choices, thorough);
	FILE* out = outPath.empty() ? stdout : fopen(outPath.c_str(), "w");
	Ctx ctx;
	ctx.m_verbose = true;
	ctx.m_thorough = thorough;
	ctx.m_choices = choices;
	// Notes are flushed as they are produced, so that a crash keeps them.
	g_noteFile = out;
	if (fromStart)
		alarm(unsigned(spec.execTimeout) + 5);
	fprintf(out, "EXECUTION\n");
	fflush(out);
	Violation v;
	bool bad = execute(spec.families[family], index, ctx, v);
	if (bad)
		fprintf(out, "VERDICT violation key=%s msg=%s\n", keyToken(v.key).c_str(), v.msg.c_str());
	else
		fprintf(out, "VERDICT ok\n");
	fflush(out);
	return bad ? 1 : 0;
}

} // namespace

std::string fmt(const char* f, ...)
{
	va_list args;
	va_start(args, f);
	std::string s = vfmt(f, args);
	va_end(args);
	return s;
}

std::uint64_t hashBytes(const void* data, std::size_t size, std::uint64_t seed)
{
	const unsigned char* p = static_cast<const unsigned char*>(data);
	std::uint64_t h = seed*0x9e3779b97f4a7c15ULL + size;
	while (size >= 8)
	{
		std::uint64_t v;
		memcpy(&v, p, 8);
		h = mix(h, v);
		p += 8;
		size -= 8;
	}
	std::uint64_t v = 0;
	memcpy(&v, p, size);
	return mix(h, v);
}

unsigned Ctx::choose(unsigned n)
{
	if (n == 0)
		n = 1;
	if (m_pos < m_choices.size())
	{
		if (m_limits.size() <= m_pos)
			m_limits.push_back(n);
		else
			m_limits[m_pos] = n;
		unsigned c = m_choices[m_pos++];
		if (c >= n)
			throw Violation{"engine:nondeterministic", "choice out of range while re-executing"};
		return c;
	}
	m_choices.push_back(0);
	m_limits.push_back(n);
	if (g_slot && m_pos < maxChoices)
	{
		g_slot->choices[m_pos] = 0;
		g_slot->nChoices = unsigned(m_pos + 1);
	}
	++m_pos;
	return 0;
}

void Ctx::note(const char* f, ...)
{
	if (!m_verbose)
		return;
	va_list args;
	va_start(args, f);
	std::string s = vfmt(f, args);
	va_end(args);
	if (g_noteFile)
	{
		fprintf(g_noteFile, "%s\n", s.c_str());
		fflush(g_noteFile);
	}
}

void Ctx::state(std::uint64_t hash)
{
	if (g_states.size() < 40000000)
		g_states.insert(hash);
}

void Ctx::count(const char* name, std::uint64_t n)
{
	g_counts[name] += n;
}

void Ctx::fail(const std::string& key, const char* f, ...)
{
	va_list args;
	va_start(args, f);
	std::string s = vfmt(f, args);
	va_end(args);
	throw Violation{key, s};
}

namespace
{
std::string g_scratch;
struct ScratchGuard
{
	ScratchGuard()
	{
		char t[] = "/tmp/cuttlefish-mc-XXXXXX";
		if (mkdtemp(t))
			g_scratch = t;
		owner = getpid();
	}
	~ScratchGuard()
	{
		if (g_scratch.empty() || getpid() != owner)
			return;
		nftw(g_scratch.c_str(), [](const char* p, const struct stat*, int, struct FTW*) { return remove(p); },
			16, FTW_DEPTH | FTW_PHYS);
	}
	pid_t owner;
};
} // namespace

std::string scratch()
{
	std::string d = fmt("%s/%d", g_scratch.c_str(), int(getpid()));
	mkdir(d.c_str(), 0777);
	return d;
}

int run(int argc, char** argv, const Spec& spec)
{
	ScratchGuard scratchGuard;
	setvbuf(stdout, nullptr, _IOLBF, 0);
	const char* tierEnv = getenv("VERIF_TIER");
	bool thorough = tierEnv && std::string(tierEnv) == "thorough";
	const char* dirEnv = getenv("VERIF_DIR");
	std::string dir = dirEnv ? dirEnv : "/verif";
	const char* seedEnv = getenv("VERIF_SEED");
	int seed = seedEnv ? atoi(seedEnv) : 1;
	std::string replayFile;
	std::string onlyFamily;
	for (int i = 1; i < argc; ++i)
	{
		std::string a = argv[i];
		if (a == "--thorough")
			thorough = true;
		else if (a == "--replay" && i + 1 < argc)
			replayFile = argv[++i];
		else if (a == "--family" && i + 1 < argc)
			onlyFamily = argv[++i];
	}

	if (!replayFile.empty())
	{
		std::ifstream f(replayFile);
		std::string line, familyName, tier;
		unsigned long long index = 0;
		std::vector<unsigned> choices;
		std::vector<CaseId> before;
		bool fromStart = false;
		while (std::getline(f, line))
		{
			std::istringstream ss(line);
			std::string word;
			ss >> word;
			if (word == "family:")
				ss >> familyName;
			else if (word == "case:")
				ss >> index;
			else if (word == "tier:")
				ss >> tier;
			else if (word == "before:")
			{
				CaseId id;
				char colon;
				fromStart = true;
				while (ss >> id.first >> colon >> id.second)
					before.push_back(id);
			}
			else if (word == "choices:")
			{
				unsigned c;
				while (ss >> c)
					choices.push_back(c);
			}
		}
		if (tier == "thorough")
			thorough = true;
		for (unsigned i = 0; i < spec.families.size(); ++i)
		{
			if (spec.families[i].name == familyName)
			{
				for (const Family& family : spec.families)
					family.cases(thorough);
				return replayOne(spec, before, fromStart, i, index, choices, thorough, "");
			}
		}
		fprintf(stderr, "no such family: %s\n", familyName.c_str());
		return 2;
	}

	mkdir((dir + "/evidence").c_str(), 0777);
	std::string work = fmt("%s/evidence/.work-%s-%d", dir.c_str(), spec.property.c_str(),
		int(getpid()));
	mkdir(work.c_str(), 0777);

	long long start = nowMs();
	double budget = thorough ? spec.thoroughBudget : spec.quickBudget;
	if (const char* b = getenv("VERIF_BUDGET"))
		budget = atof(b);
	double deadline = start + budget*1000;
	std::map<std::string, std::string> knownText;
	std::set<std::string> known = loadKnown(dir, spec.property, knownText);

	Locator loc;
	for (const Family& f : spec.families)
	{
		loc.first.push_back(loc.total);
		if (onlyFamily.empty() || f.name.find(onlyFamily) != std::string::npos)
			loc.total += f.cases(thorough);
	}

	g_shared = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
		MAP_SHARED | MAP_ANONYMOUS, -1, 0));
	if (g_shared == MAP_FAILED)
		return 2;
	int workers = spec.workers ? spec.workers : int(std::thread::hardware_concurrency());
	workers = std::max(1, std::min<int>(workers, 16));
	workers = int(std::min<unsigned long long>(workers, std::max<unsigned long long>(loc.total, 1)));

	std::vector<pid_t> pids(workers, -1);
	std::vector<std::string> outs(workers);
	std::vector<Found> crashes;
	auto spawn = [&](int w, bool resume, unsigned long long flat, std::vector<unsigned> choices)
	{
		fflush(nullptr);
		pid_t pid = fork();
		if (pid == 0)
		{
			// Keep whatever the code under test prints out of our own output.
			int log = open((outs[w] + ".log").c_str(), O_WRONLY | O_CREAT | O_APPEND, 0666);
			dup2(log, 1);
			dup2(log, 2);
			workerMain(spec, loc, w, thorough, deadline, outs[w], known, flat, resume, choices);
		}
		pids[w] = pid;
	};
	for (int w = 0; w < workers; ++w)
	{
		outs[w] = fmt("%s/w%d", work.c_str(), w);
		spawn(w, false, 0, {});
	}

	int alive = workers;
	int crashCount = 0;
	bool crashStop = false;
	while (alive > 0)
	{
		int status = 0;
		pid_t pid = waitpid(-1, &status, WNOHANG);
		if (pid == 0)
		{
			for (int w = 0; w < workers; ++w)
			{
				if (pids[w] > 0 && g_shared->slots[w].busy.load() &&
					nowMs() - g_shared->slots[w].startMs.load() > spec.execTimeout*1000)
				{
					kill(pids[w], SIGKILL);
				}
			}
			usleep(20000);
			continue;
		}
		if (pid < 0)
			break;
		int w = int(std::find(pids.begin(), pids.end(), pid) - pids.begin());
		if (w == workers)
			continue;
		if (WIFEXITED(status) && WEXITSTATUS(status) == 0 && !g_shared->slots[w].busy.load())
		{
			pids[w] = -1;
			--alive;
			continue;
		}
		// The worker died inside an execution.
		Slot& slot = g_shared->slots[w];
		bool hung = WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL;
		Found f;
		unsigned family;
		unsigned long long index;
		loc.locate(slot.index, family, index);
		f.family = family;
		f.index = index;
		f.choices.assign(slot.choices, slot.choices + std::min<unsigned>(slot.nChoices, maxChoices));
		f.worker = w;
		f.started = slot.started;
		f.key = fmt("%s:%s", hung ? "hang" : "crash", spec.families[family].name.c_str());
		f.msg = hung ? std::string("execution did not finish or was killed") :
			WIFSIGNALED(status) ? fmt("the code under test died with signal %d", WTERMSIG(status)) :
			fmt("the process exited with status %d", WEXITSTATUS(status));
		{
			std::ifstream log(outs[w] + ".log");
			std::string line, summary;
			while (std::getline(log, line))
			{
				if (line.find("ERROR: AddressSanitizer") != std::string::npos ||
					line.find("runtime error:") != std::string::npos ||
					line.find("SUMMARY:") != std::string::npos)
				{
					summary = line;
				}
			}
			if (!summary.empty())
				f.msg += ": " + summary;
		}
		crashes.push_back(f);
		slot.busy = 0;
		pids[w] = -1;
		--alive;
		if (++crashCount >= 4)
		{
			crashStop = true;
			g_shared->stop = 1;
		}
		(void)crashStop;
		if (!g_shared->stop.load())
		{
			// Continue with the other cases; the rest of this case is skipped.
			spawn(w, false, 0, {});
			++alive;
		}
	}

	// Collect.
	std::uint64_t execs = 0, steps = 0, cases = 0;
	bool complete = crashes.empty();
	std::vector<std::uint64_t> familyExecs(spec.families.size()), familyCases(spec.families.size());
	std::map<std::string, std::uint64_t> counts;
	std::vector<std::string> samples;
	std::vector<Found> found = crashes;
	std::vector<std::uint64_t> states;
	for (int w = 0; w < workers; ++w)
	{
		std::ifstream f(outs[w]);
		std::string line;
		while (std::getline(f, line))
		{
			std::vector<std::string> c;
			std::size_t p = 0;
			while (true)
			{
				std::size_t q = line.find('\t', p);
				c.push_back(line.substr(p, q == std::string::npos ? q : q - p));
				if (q == std::string::npos)
					break;
				p = q + 1;
			}
			if (c[0] == "V" && c.size() >= 7)
			{
				Found v;
				v.key = c[1];
				v.msg = c[2];
				v.family = unsigned(atoi(c[3].c_str()));
				v.index = strtoull(c[4].c_str(), nullptr, 10);
				v.worker = w;
				v.started = strtoull(c[5].c_str(), nullptr, 10);
				std::istringstream ss(c[6]);
				std::string n;
				while (std::getline(ss, n, ','))
				{
					if (!n.empty())
						v.choices.push_back(unsigned(atoi(n.c_str())));
				}
				found.push_back(v);
			}
			else if (c[0] == "S")
			{
				execs += strtoull(c[1].c_str(), nullptr, 10);
				steps += strtoull(c[2].c_str(), nullptr, 10);
				cases += strtoull(c[3].c_str(), nullptr, 10);
				complete = complete && c[4] == "1";
			}
			else if (c[0] == "F")
			{
				familyExecs[atoi(c[1].c_str())] += strtoull(c[2].c_str(), nullptr, 10);
				familyCases[atoi(c[1].c_str())] += strtoull(c[3].c_str(), nullptr, 10);
			}
			else if (c[0] == "C")
				counts[c[1]] += strtoull(c[2].c_str(), nullptr, 10);
			else if (c[0] == "X" && samples.size() < 12)
				samples.push_back(c[1]);
		}
		FILE* st = fopen((outs[w] + ".states").c_str(), "rb");
		if (st)
		{
			std::uint64_t buf[4096];
			std::size_t n;
			while ((n = fread(buf, 8, 4096, st)) > 0)
				states.insert(states.end(), buf, buf + n);
			fclose(st);
		}
	}
	std::sort(states.begin(), states.end());
	states.erase(std::unique(states.begin(), states.end()), states.end());
	if (execs == 0 && crashes.empty())
	{
		fprintf(stderr, "no execution completed: see %s\n", work.c_str());
		return 2;
	}

	// Deduplicate by key, smallest choice sequence first.
	std::map<std::string, Found> byKey;
	for (const Found& f : found)
	{
		auto it = byKey.find(f.key);
		if (it == byKey.end() || f.choices.size() < it->second.choices.size())
			byKey[f.key] = f;
	}
	int violations = 0;
	int unconfirmed = 0;
	const long long confirmStart = nowMs();
	const double confirmBudget = thorough ? budget/2 : 150;
	int n = 0;
	for (auto& kv : byKey)
	{
		const Found& f = kv.second;
		const char* part = getenv("VERIF_PART");
		std::string replay = fmt("%s/evidence/%s%s.replay-%d.txt", dir.c_str(),
			spec.property.c_str(), part ? part : "", n++);
		std::string notes = replay + ".trace";
		// Re-execute in a fresh process: the execution alone, then after what its worker ran
		// before it (the code under test may keep state from one call to the next): the
		// executions of the same case, then more and more of the cases before.
		std::vector<CaseId> history, before;
		{
			std::ifstream h(outs[f.worker] + ".history", std::ios::binary);
			std::uint64_t entry;
			for (std::uint64_t i = 0; i < f.started &&
				h.read(reinterpret_cast<char*>(&entry), sizeof(entry)); ++i)
			{
				CaseId id;
				if (entry == newProcess)
				{
					history.clear();
					continue;
				}
				loc.locate(entry, id.first, id.second);
				history.push_back(id);
			}
			if (!history.empty())
				history.pop_back();
		}
		bool again = false, fromStart = false;
		for (std::size_t attempt = 0; !again; ++attempt)
		{
			fromStart = attempt > 0;
			std::size_t n = attempt < 2 ? 0 : std::size_t(1) << 3*(attempt - 2);
			before.assign(history.end() - std::min(n, history.size()), history.end());
			double left = confirmBudget - double(nowMs() - confirmStart)/1000;
			if (attempt > 0 && left < 1)
				break;
			fflush(nullptr);
			unlink(notes.c_str());
			pid_t pid = fork();
			if (pid == 0)
			{
				int log = open((work + "/replay.log").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666);
				dup2(log, 1);
				dup2(log, 2);
				alarm(fromStart ? unsigned(left) + 1 : unsigned(spec.execTimeout) + 5);
				_exit(replayOne(spec, before, fromStart, f.family, f.index, f.choices, thorough,
					notes));
			}
			int status = 0;
			waitpid(pid, &status, 0);
			again = !(WIFEXITED(status) && WEXITSTATUS(status) == 0);
			if (again && fromStart)
			{
				// Only the last execution counts.
				std::ifstream t(notes);
				std::string line;
				again = std::getline(t, line) && line == "EXECUTION";
			}
			if (attempt > 1 && n >= history.size())
				break;
		}
		std::ofstream r(replay);
		r << "property: " << spec.property << "\nkey: " << f.key << "\nwhat: " << f.msg <<
			"\ntier: " << (thorough ? "thorough" : "quick") << "\nfamily: " <<
			spec.families[f.family].name << "\ncase: " << f.index << "\nchoices:";
		for (unsigned c : f.choices)
			r << " " << c;
		if (fromStart)
		{
			// What has to run before it in the same process.
			r << "\nbefore:";
			for (const CaseId& id : before)
				r << " " << id.first << ":" << id.second;
		}
		r << "\n# replay with: " << dir << "/check " << spec.property << " --replay <this file>\n";
		r << "# --- trace ---\n";
		{
			std::ifstream t(notes);
			r << t.rdbuf();
		}
		r << "\n# --- output of the re-execution ---\n";
		{
			std::ifstream t(work + "/replay.log");
			r << t.rdbuf();
		}
		r.close();
		unlink(notes.c_str());
		if (!again)
		{
			printf("note: not reproduced on re-execution, not reported: %s (%s)\n", f.key.c_str(),
				f.msg.c_str());
			++unconfirmed;
			continue;
		}
		if (known.count(f.key))
		{
			printf("KNOWN-FINDING: property=%s %s [key=%s]\n", spec.property.c_str(),
				knownText[f.key].c_str(), f.key.c_str());
			continue;
		}
		++violations;
		if (violations <= 5)
		{
			printf("%s: %s\n", f.key.c_str(), f.msg.c_str());
			printf("VIOLATION property=%s replay=%s\n", spec.property.c_str(), replay.c_str());
		}
	}

	double wall = double(nowMs() - start)/1000.0;
	// An incomplete exploration is said to be so.
	{
		const char* part = getenv("VERIF_PART");
		std::ofstream e(dir + "/evidence/" + spec.property + (part ? part : "") + ".json");
		e << "{\n \"property\": " << jsonStr(spec.property) << ",\n \"tier\": \"" <<
			(thorough ? "thorough" : "quick") << "\",\n \"seed\": " << seed <<
			",\n \"level\": " << jsonStr(spec.level) << ",\n \"coverage\": {\n";
		if (spec.level == "model_checking")
		{
			e << "  \"states\": " << states.size() << ",\n  \"transitions\": " << steps <<
				",\n  \"traces_validated_against_impl\": " << execs << ",\n";
		}
		else
		{
			e << "  \"evaluations\": " << execs << ",\n  \"distinct_nontrivial\": " <<
				states.size() << ",\n  \"steps\": " << steps << ",\n";
		}
		e << "  \"rule\": " << jsonStr(spec.rule) << ",\n  \"exhaustive\": " <<
			(complete ? "true" : "false") << ",\n  \"cases\": " << cases << ",\n  \"families\": {";
		for (std::size_t i = 0; i < spec.families.size(); ++i)
		{
			e << (i ? ", " : "") << jsonStr(spec.families[i].name) << ": {\"cases\": " <<
				familyCases[i] << ", \"executions\": " << familyExecs[i] << "}";
		}
		e << "},\n";
		if (!counts.empty())
		{
			e << "  \"counts\": {";
			bool firstCount = true;
			for (auto& c : counts)
			{
				e << (firstCount ? "" : ", ") << jsonStr(c.first) << ": " << c.second;
				firstCount = false;
			}
			e << "},\n";
		}
		if (unconfirmed)
			e << "  \"unconfirmed\": " << unconfirmed << ",\n";
		e << "  \"samples\": [";
		for (std::size_t i = 0; i < samples.size(); ++i)
			e << (i ? ", " : "") << jsonStr(samples[i]);
		e << "]\n },\n \"assumptions\": [";
		for (std::size_t i = 0; i < spec.assumptions.size(); ++i)
			e << (i ? ", " : "") << jsonStr(spec.assumptions[i]);
		e << "],\n \"wall_s\": " << wall << ",\n \"violations\": " << violations << "\n}\n";
	}
	printf("%s: %llu executions, %zu states, %llu transitions, %s, %.1f s%s\n",
		spec.property.c_str(), (unsigned long long)execs, states.size(),
		(unsigned long long)steps, complete ? "exhaustive within bounds" : "NOT exhaustive", wall,
		unconfirmed ? ", some unconfirmed" : "");
	// The work directory holds only logs of this run.
	for (int w = 0; w < workers; ++w)
	{
		unlink(outs[w].c_str());
		unlink((outs[w] + ".log").c_str());
		unlink((outs[w] + ".states").c_str());
		unlink((outs[w] + ".history").c_str());
	}
	unlink((work + "/replay.log").c_str());
	rmdir(work.c_str());
	return violations ? 1 : 0;
}

} // namespace mc
