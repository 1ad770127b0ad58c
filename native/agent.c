/* Test program started by the k8psh server as the "remote command".
 *
 * It connects to the unix socket ctl.sock in the directory of its own executable, reports how it was started, and then
 * carries out the operations it receives one by one, answering each. Messages in both directions: 1 byte type, 4 byte
 * little-endian length, payload.
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sched.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/un.h>
#include <time.h>
#include <unistd.h>

extern char **environ;
static int ctl = -1;
static volatile sig_atomic_t termMode; /* 0: report and exit, 1: report and continue */

static void fullWrite(int fd, const void *data, size_t length)
{
	const char *p = data;

	while (length)
	{
		ssize_t n = write(fd, p, length);

		if (n < 0 && errno == EINTR)
			continue;
		if (n <= 0)
			_exit(120);

		p += n;
		length -= (size_t)n;
	}
}

static int fullRead(int fd, void *data, size_t length)
{
	char *p = data;

	while (length)
	{
		ssize_t n = read(fd, p, length);

		if (n < 0 && errno == EINTR)
			continue;
		if (n <= 0)
			return 0;

		p += n;
		length -= (size_t)n;
	}

	return 1;
}

static void put32(unsigned char *p, uint32_t v)
{
	p[0] = (unsigned char)v;
	p[1] = (unsigned char)(v >> 8);
	p[2] = (unsigned char)(v >> 16);
	p[3] = (unsigned char)(v >> 24);
}

static uint32_t get32(const unsigned char *p) { return p[0] | ((uint32_t)p[1] << 8) | ((uint32_t)p[2] << 16) | ((uint32_t)p[3] << 24); }

static void reply(char type, const void *data, size_t length)
{
	unsigned char *buffer = malloc(length + 5);
	sigset_t all, previous;

	buffer[0] = (unsigned char)type;
	put32(buffer + 1, (uint32_t)length);
	if (length)
		memcpy(buffer + 5, data, length);

	/* The report of a signal must not get into the middle of the message */
	sigfillset(&all);
	sigprocmask(SIG_BLOCK, &all, &previous);
	fullWrite(ctl, buffer, length + 5);
	sigprocmask(SIG_SETMASK, &previous, NULL);
	free(buffer);
}

static void onTerm(int sig)
{
	int saved = errno;
	unsigned char message[6] = { 'T', 1, 0, 0, 0, (unsigned char)sig };

	if (write(ctl, message, sizeof(message)) != (ssize_t)sizeof(message)) { }

	if (!termMode)
		_exit(99);

	errno = saved;
}

struct Buffer { char *data; size_t length, capacity; };

static void append(struct Buffer *b, const void *data, size_t length)
{
	if (b->length + length > b->capacity)
	{
		b->capacity = (b->length + length) * 2 + 64;
		b->data = realloc(b->data, b->capacity);
	}

	memcpy(b->data + b->length, data, length);
	b->length += length;
}

static void appendString(struct Buffer *b, const char *s)
{
	unsigned char l[4];
	size_t n = strlen(s);

	put32(l, (uint32_t)n);
	append(b, l, 4);
	append(b, s, n);
}

static void append32(struct Buffer *b, uint32_t v)
{
	unsigned char l[4];

	put32(l, v);
	append(b, l, 4);
}

static void hello(int argc, char **argv)
{
	struct Buffer b = { 0 };
	char cwd[65536];
	uint32_t n = 0;
	uint32_t fds[256];
	uint32_t fdCount = 0;
	struct stat st;
	int i;

	append32(&b, (uint32_t)getpid());
	append32(&b, (uint32_t)getppid());
	append32(&b, (uint32_t)argc);
	for (i = 0; i < argc; i++)
		appendString(&b, argv[i]);

	for (n = 0; environ[n]; n++)
		;
	append32(&b, n);
	for (n = 0; environ[n]; n++)
		appendString(&b, environ[n]);

	appendString(&b, getcwd(cwd, sizeof(cwd)) ? cwd : "");

	/* Open descriptors, other than the control socket */
	for (i = 0; i < 1024 && fdCount < 256; i++)
		if (i != ctl && fcntl(i, F_GETFD) != -1)
			fds[fdCount++] = (uint32_t)i;

	append32(&b, fdCount);
	for (i = 0; i < (int)fdCount; i++)
	{
		append32(&b, fds[i]);
		append32(&b, fstat((int)fds[i], &st) == 0 ? (uint32_t)(st.st_mode & S_IFMT) : 0);
		append32(&b, (uint32_t)fcntl((int)fds[i], F_GETFL));
	}

	reply('H', b.data, b.length);
	free(b.data);
}

static void appendText(struct Buffer *b, const char *format, long long value)
{
	char line[200];

	snprintf(line, sizeof(line), format, value);
	append(b, line, strlen(line));
}

static void appendFile(struct Buffer *b, const char *path)
{
	char data[16384];
	int fd = open(path, O_RDONLY);
	ssize_t n;

	while (fd >= 0 && (n = read(fd, data, sizeof(data))) > 0)
		append(b, data, (size_t)n);
	close(fd);
}

/* The process attributes that survive execve() */
static void context(struct Buffer *b)
{
	struct itimerval timer;
	int i, value = 0;

	appendFile(b, "/proc/self/status");
	appendFile(b, "/proc/self/limits");
	append(b, "OomAdj: ", 8);
	appendFile(b, "/proc/self/oom_score_adj");
	append(b, "Personality: ", 13);
	appendFile(b, "/proc/self/personality");
	appendText(b, "Nice: %lld\n", getpriority(PRIO_PROCESS, 0));
	appendText(b, "Scheduler: %lld\n", sched_getscheduler(0));
	prctl(PR_GET_PDEATHSIG, &value);
	appendText(b, "DeathSignal: %lld\n", value);
	prctl(PR_GET_CHILD_SUBREAPER, &value);
	appendText(b, "Subreaper: %lld\n", value);
	appendText(b, "TimerSlack: %lld\n", prctl(PR_GET_TIMERSLACK));
	appendText(b, "Dumpable: %lld\n", prctl(PR_GET_DUMPABLE));
	for (i = ITIMER_REAL; i <= ITIMER_PROF; i++)
	{
		getitimer(i, &timer);
		appendText(b, "Timer: %lld\n", timer.it_value.tv_sec || timer.it_value.tv_usec);
	}
}

int main(int argc, char **argv)
{
	struct Buffer start = { 0 };
	struct sockaddr_un address = { .sun_family = AF_UNIX };
	struct sigaction action;
	char path[4096];
	char *slash;
	ssize_t n = readlink("/proc/self/exe", path, sizeof(path) - 1);
	int fd;

	if (n < 0)
		return 121;

	path[n] = 0;
	slash = strrchr(path, '/');
	snprintf(slash, (size_t)(path + sizeof(path) - slash), "/ctl.sock");

	if (strlen(path) >= sizeof(address.sun_path))
		return 122;

	strcpy(address.sun_path, path);
	fd = socket(AF_UNIX, SOCK_STREAM, 0);
	/* Keep the control socket away from the descriptors that are under test */
	ctl = fcntl(fd, F_DUPFD, 900);
	close(fd);

	if (ctl < 0 || connect(ctl, (struct sockaddr *)&address, sizeof(address)) != 0)
		return 123;

	context(&start);

	/* No SA_RESTART: a blocked operation returns when the signal arrives */
	memset(&action, 0, sizeof(action));
	action.sa_handler = onTerm;
	sigaction(SIGTERM, &action, NULL);
	sigaction(SIGINT, &action, NULL);
	sigaction(SIGHUP, &action, NULL);
	signal(SIGPIPE, SIG_IGN);

	hello(argc, argv);

	for (;;)
	{
		unsigned char header[5];
		uint32_t length;
		char *data;

		if (!fullRead(ctl, header, 5))
			_exit(124);

		length = get32(header + 1);
		data = malloc(length + 1);

		if (!fullRead(ctl, data, length))
			_exit(124);

		switch (header[0])
		{
		case 'W': /* fd, chunk, data: write data to fd, in chunks (0: a single write), reports bytes written and errno */
			{
				int target = (unsigned char)data[0];
				uint32_t chunk = get32((unsigned char *)data + 1);
				size_t offset = 5;
				unsigned char result[8];
				int error = 0;

				while (offset < length)
				{
					size_t size = chunk && chunk < length - offset ? chunk : length - offset;
					ssize_t wrote = write(target, data + offset, size);

					if (wrote < 0 && errno == EINTR)
						continue;
					if (wrote < 0)
					{
						error = errno;
						break;
					}

					offset += (size_t)wrote;
				}

				put32(result, (uint32_t)(offset - 5));
				put32(result + 4, (uint32_t)error);
				reply('W', result, 8);
				break;
			}

		case 'F': /* fd, data: writes data to fd over and over until there is something to read on stdin; reports the bytes written and errno */
			{
				int target = (unsigned char)data[0], error = 0;
				size_t offset = 1;
				uint32_t total = 0;
				unsigned char result[8];
				struct pollfd p = { .fd = 0, .events = POLLIN };

				while (poll(&p, 1, 0) == 0 && total < 1u << 30)
				{
					ssize_t wrote = write(target, data + offset, length - offset);

					if (wrote < 0 && errno == EINTR)
						continue;
					if (wrote < 0)
					{
						error = errno;
						break;
					}

					total += (uint32_t)wrote;
					offset += (size_t)wrote;

					if (offset == length)
						offset = 1;
				}

				put32(result, total);
				put32(result + 4, (uint32_t)error);
				reply('F', result, 8);
				break;
			}

		case 'R': /* count, chunk, delay (us): reads stdin until count bytes or end of file or error; reply: eof flag / errno, data */
			{
				uint32_t count = get32((unsigned char *)data);
				uint32_t chunk = get32((unsigned char *)data + 4);
				uint32_t delay = get32((unsigned char *)data + 8);
				size_t capacity = count < 65536 ? count + 5 : 65536, at = 5;
				char *buffer = malloc(capacity);
				int status = 0;

				while (at - 5 < count)
				{
					size_t want = count - (at - 5);
					ssize_t got;

					if (chunk && want > chunk)
						want = chunk;
					if (want > 1 << 20)
						want = 1 << 20;
					if (at + want > capacity)
						buffer = realloc(buffer, capacity = (at + want) * 2);

					got = read(0, buffer + at, want);

					if (got < 0 && errno == EINTR)
						continue;
					if (got < 0)
					{
						status = 2 + errno;
						break;
					}
					if (got == 0)
					{
						status = 1;
						break;
					}

					at += (size_t)got;
					if (delay)
						usleep(delay);
				}

				put32((unsigned char *)buffer, (uint32_t)status);
				buffer[4] = 0;
				reply('R', buffer, at);
				free(buffer);
				break;
			}

		case 'G': /* fd, total (64 bit), data: writes total bytes of endlessly repeated data to fd; reports the bytes written and errno */
			{
				uint64_t total = get32((unsigned char *)data + 1) | ((uint64_t)get32((unsigned char *)data + 5) << 32), at = 0;
				size_t period = length - 9, offset = 0;
				int target = (unsigned char)data[0], error = 0;
				unsigned char result[12];

				while (at < total)
				{
					size_t want = period - offset;
					ssize_t wrote;

					if (want > total - at)
						want = (size_t)(total - at);

					wrote = write(target, data + 9 + offset, want);

					if (wrote < 0 && errno == EINTR)
						continue;
					if (wrote < 0)
					{
						error = errno;
						break;
					}

					at += (uint64_t)wrote;
					offset = (offset + (size_t)wrote) % period;
				}

				put32(result, (uint32_t)at);
				put32(result + 4, (uint32_t)(at >> 32));
				put32(result + 8, (uint32_t)error);
				reply('G', result, 12);
				break;
			}

		case 'V': /* data: reads stdin until end of file or error and compares it to endlessly repeated data; reports the bytes read that are equal, and errno, or ~0 if there is a difference */
			{
				uint64_t at = 0;
				size_t offset = 0;
				char *buffer = malloc(1 << 18);
				uint32_t error = 0;
				unsigned char result[12];

				for (;;)
				{
					size_t want = length - offset < 1 << 18 ? length - offset : 1 << 18;
					ssize_t got = read(0, buffer, want);

					if (got < 0 && errno == EINTR)
						continue;
					if (got < 0)
						error = (uint32_t)errno;
					else if (got > 0 && memcmp(buffer, data + offset, (size_t)got) != 0)
						error = ~(uint32_t)0;
					if (got <= 0 || error)
						break;

					at += (uint64_t)got;
					offset = (offset + (size_t)got) % length;
				}

				put32(result, (uint32_t)at);
				put32(result + 4, (uint32_t)(at >> 32));
				put32(result + 8, error);
				reply('V', result, 12);
				free(buffer);
				break;
			}

		case 'P': /* timeout (ms): polls stdin */
			{
				struct pollfd set = { .fd = 0, .events = POLLIN };
				unsigned char result[4];

				poll(&set, 1, (int)get32((unsigned char *)data));
				put32(result, (uint32_t)(unsigned short)set.revents);
				reply('P', result, 4);
				break;
			}

		case 'C': /* fd: closes */
			close((unsigned char)data[0]);
			reply('C', NULL, 0);
			break;

		case 'I': /* reports the process attributes at the start, and the flags of the standard streams now */
			{
				struct Buffer b = { 0 };
				int i;

				append(&b, start.data, start.length);
				for (i = 0; i <= 2; i++)
					appendText(&b, "Flags: %lld\n", fcntl(i, F_GETFL));
				reply('I', b.data, b.length);
				free(b.data);
				break;
			}

		case 'S': /* us: sleeps */
			{
				uint32_t us = get32((unsigned char *)data);
				struct timespec ts = { us / 1000000, (long)(us % 1000000) * 1000 };

				while (nanosleep(&ts, &ts) != 0 && errno == EINTR)
					;
				reply('S', NULL, 0);
				break;
			}

		case 'M': /* mode for SIGTERM */
			termMode = (unsigned char)data[0];
			reply('M', NULL, 0);
			break;

		case 'O': /* output back-pressure probe: polls fd for writability */
			{
				struct pollfd set = { .fd = (unsigned char)data[0], .events = POLLOUT };
				unsigned char result[4];

				poll(&set, 1, (int)get32((unsigned char *)data + 1));
				put32(result, (uint32_t)(unsigned short)set.revents);
				reply('O', result, 4);
				break;
			}

		case 'E': /* echo: copies stdin to the given descriptor until end of file */
			{
				int target = (unsigned char)data[0];
				uint32_t chunk = get32((unsigned char *)data + 1);
				char *buffer = malloc(chunk ? chunk : 65536);
				uint32_t total = 0;
				unsigned char result[8];
				int error = 0;

				for (;;)
				{
					ssize_t got = read(0, buffer, chunk ? chunk : 65536), at = 0;

					if (got < 0 && errno == EINTR)
						continue;
					if (got < 0)
						error = errno;
					if (got <= 0)
						break;

					while (at < got)
					{
						ssize_t wrote = write(target, buffer + at, (size_t)(got - at));

						if (wrote < 0 && errno == EINTR)
							continue;
						if (wrote < 0)
						{
							error = errno;
							break;
						}

						at += wrote;
					}

					total += (uint32_t)at;
					if (error)
						break;
				}

				put32(result, total);
				put32(result + 4, (uint32_t)error);
				reply('E', result, 8);
				free(buffer);
				break;
			}

		case 'X': /* exits with the given code */
			_exit((unsigned char)data[0]);

		case 'Y': /* exits with the given code, leaving a child process that carries on with its descriptors; replies once the process is gone */
			{
				pid_t self = getpid(), child = fork();

				if (child < 0)
					_exit(121);
				else if (child > 0)
					_exit((unsigned char)data[0]);

				while (getppid() == self)
					usleep(200);

				reply('Y', NULL, 0);
				break;
			}

		case 'K': /* kills itself with the given signal */
			{
				struct rlimit none = { 0, 0 };

				setrlimit(RLIMIT_CORE, &none);
				signal((unsigned char)data[0], SIG_DFL);
				kill(getpid(), (unsigned char)data[0]);
				pause();
				_exit(125);
			}

		default:
			_exit(126);
		}

		free(data);
	}
}
