// Coverage-guided fuzzing of the configuration parser: no crash, no reading outside the input (sanitizers), no hang, and the result does not depend on
// blank or comment lines added around the input.
#define main k8pshMain
#include "k8psh.cxx"
#undef main

#include <algorithm>
#include <cstdint>
#include <cstdlib>
#include <exception>
#include <map>
#include <string>

static void add(std::string &out, const std::string &s)
{
	out += std::to_string(s.length()) + ":" + s + ",";
}

static void add(std::string &out, const k8psh::Configuration::CommandMap &commands)
{
	std::map<std::string, std::string> sorted;

	for (auto it = commands.begin(); it != commands.end(); ++it)
	{
		std::string &c = sorted[it->first];
		add(c, it->second.getName());
		add(c, it->second.getHost().getHostname());
		c += std::to_string(it->second.getHost().getPort()) + "o";

		for (auto o = it->second.getHost().getOptions().begin(); o != it->second.getHost().getOptions().end(); ++o)
			add(c, *o);

		c += "v";

		for (auto v = it->second.getEnvironmentVariables().begin(); v != it->second.getEnvironmentVariables().end(); ++v)
		{
			add(c, v->first);
			add(c, v->second);
		}

		c += "e";

		for (auto e = it->second.getExecutable().begin(); e != it->second.getExecutable().end(); ++e)
			add(c, *e);
	}

	for (auto it = sorted.begin(); it != sorted.end(); ++it)
	{
		add(out, it->first);
		out += "{" + it->second + "}";
	}
}

static std::string load(const std::string &text)
{
	std::string out;

	try
	{
		const k8psh::Configuration configuration = k8psh::Configuration::load(text, "/work");
		add(out, configuration.getBaseDirectory());
		out += std::to_string(configuration.getConnectTimeoutMs()) + ";";
		add(out, configuration.getCommands());

		for (auto it = configuration.getCommands().begin(); it != configuration.getCommands().end(); ++it)
		{
			auto commands = configuration.getCommands(it->second.getHost().getHostname());

			if (!commands)
				abort();

			add(out, *commands);
		}
	}
	catch (const std::exception &) { return "rejected"; }

	return out;
}

extern "C" int LLVMFuzzerInitialize(int *, char ***)
{
	(void)setenv("A", "value of A", 1);
	(void)setenv("E", "", 1);
	(void)setenv("R", "${A}", 1);
	(void)unsetenv("K8PSH_DEBUG");
	return 0;
}

extern "C" int LLVMFuzzerTestOneInput(const std::uint8_t *data, std::size_t size)
{
	const std::string text(reinterpret_cast<const char *>(data), size);
	const std::string result = load(text);

	if (load(text + "\n") != result || load(text + "\n# appended comment\n \t\n#") != result || load("\n# prepended \"comment\n\r\n" + text) != result)
		__builtin_trap();

	return 0;
}
