// Answers requests to the functions of k8psh's public headers: probe IN_FD OUT_FD
//
// Request: u32 length, op character, then strings (u32 length + bytes each).
// Response: u32 length, 'k' (fine) or 'e' (the function reported an error), then strings.
#define main k8pshMain
#include "k8psh.cxx"
#undef main

#include <cstdint>
#include <cstring>
#include <exception>
#include <string>
#include <vector>

#include <unistd.h>

static bool readAll(int fd, char *p, std::size_t n)
{
	while (n)
	{
		ssize_t r = read(fd, p, n);

		if (r == 0 || (r < 0 && errno != EINTR))
			return false;
		else if (r > 0)
			p += r, n -= std::size_t(r);
	}

	return true;
}

static void put(std::string &out, const std::string &s)
{
	std::uint32_t n = std::uint32_t(s.length());
	out.append(reinterpret_cast<const char *>(&n), 4);
	out.append(s.data(), s.length());
}

static void putNumber(std::string &out, unsigned long long n) { put(out, std::to_string(n)); }

static void putCommand(std::string &out, const std::string &key, const k8psh::Configuration::Command &command)
{
	put(out, key);
	put(out, command.getName());
	put(out, command.getHost().getHostname());
	putNumber(out, command.getHost().getPort());
	putNumber(out, command.getHost().getOptions().size());

	for (auto it = command.getHost().getOptions().begin(); it != command.getHost().getOptions().end(); ++it)
		put(out, *it);

	putNumber(out, command.getEnvironmentVariables().size());

	for (auto it = command.getEnvironmentVariables().begin(); it != command.getEnvironmentVariables().end(); ++it)
	{
		put(out, it->first);
		put(out, it->second);
	}

	putNumber(out, command.getExecutable().size());

	for (auto it = command.getExecutable().begin(); it != command.getExecutable().end(); ++it)
		put(out, *it);
}

static void putCommands(std::string &out, const k8psh::Configuration::CommandMap &commands)
{
	putNumber(out, commands.size());

	for (auto it = commands.begin(); it != commands.end(); ++it)
		putCommand(out, it->first, it->second);
}

static std::string handle(char op, const std::vector<std::string> &in)
{
	std::string out = "k";

	switch (op)
	{
	case 'v': // The environment
		(void)clearenv();

		for (std::size_t i = 0; i + 1 < in.size(); i += 2)
			(void)setenv(in[i].c_str(), in[i + 1].c_str(), 1);

		break;

	case 'w':
		if (chdir(in[0].c_str()) != 0)
			out = "e";

		break;

	case 'l':
		{
			// Exactly sized copies, so that reading past the end is noticed
			const k8psh::Configuration configuration = k8psh::Configuration::load(in[0], in[1]);
			put(out, configuration.getBaseDirectory());
			put(out, std::to_string(configuration.getConnectTimeoutMs()));
			putCommands(out, configuration.getCommands());

			for (std::size_t i = 2; i < in.size(); i++)
			{
				auto commands = configuration.getCommands(in[i]);
				put(out, commands ? "1" : "0");

				if (commands)
					putCommands(out, *commands);
			}
		}

		break;

	case 's':
		{
			std::unordered_map<std::string, k8psh::OptionalString> overrides;

			for (std::size_t i = 1; i + 2 < in.size(); i += 3)
				overrides[in[i]] = in[i + 1] == "1" ? k8psh::OptionalString(in[i + 2]) : k8psh::OptionalString();

			put(out, k8psh::Utilities::substituteEnvironmentVariables(in[0], overrides));
		}

		break;

	case 'n': put(out, k8psh::Utilities::normalizePath(in[0])); break;
	case 'r': put(out, k8psh::Utilities::relativizePath(in[0], in[1])); break;
	case 'b': put(out, k8psh::Utilities::getBasename(in[0])); break;
	case 'x': put(out, k8psh::Utilities::getExecutableBasename(in[0])); break;
	case 'p': put(out, k8psh::Utilities::getParentDirectory(in[0])); break;
	case 'a': put(out, k8psh::Utilities::isAbsolutePath(in[0]) ? "1" : "0"); break;
	case 'A': put(out, k8psh::Utilities::getAbsolutePath(in[0])); break;
	case 'd': put(out, k8psh::Logger::shouldLogDebug(in[0].c_str()) ? "1" : "0"); break;

	case 'D': // A debug message: its effect appears on standard output
		LOG_DEBUG << in[0];
		(void)std::fflush(stdout);
		break;

	default:
		_exit(99);
	}

	return out;
}

int main(int argc, char *argv[])
{
	if (argc < 3)
		return 98;

	const int in = std::atoi(argv[1]), out = std::atoi(argv[2]);

	for (;;)
	{
		std::uint32_t length;

		if (!readAll(in, reinterpret_cast<char *>(&length), 4))
			return 0;

		std::vector<char> request(length);

		if (!readAll(in, request.data(), length))
			return 0;

		std::vector<std::string> strings;

		for (std::size_t i = 1; i + 4 <= length; )
		{
			std::uint32_t n;
			std::memcpy(&n, &request[i], 4);
			strings.push_back(std::string(request.data() + i + 4, n));
			i += 4 + n;
		}

		std::string response;

		try { response = handle(request[0], strings); }
		catch (const std::exception &e)
		{
			response = "e";
			put(response, e.what());
		}
		catch (...)
		{
			response = "e";
			put(response, "?");
		}

		length = std::uint32_t(response.length());
		response.insert(0, reinterpret_cast<const char *>(&length), 4);

		for (std::size_t i = 0; i < response.length(); )
		{
			ssize_t w = write(out, &response[i], response.length() - i);

			if (w < 0 && errno != EINTR)
				return 97;
			else if (w > 0)
				i += std::size_t(w);
		}
	}
}
