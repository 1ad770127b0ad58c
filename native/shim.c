/* Linked in front of k8psh (ld --wrap): makes system calls deliver less than asked for, or be interrupted, according to
 * the plan in K8V_SHIM: space separated entries "name:v,v,v,...", each list being used cyclically, one value per call.
 *
 *   recv, send, read, write: the largest number of bytes to transfer in that call (0: no limit)
 *   ipoll, iread, iwrite, iaccept, iconnect: 1: fail with EINTR (accept: 2 fails with ECONNABORTED, 3 with EAGAIN,
 *                                            4 with ENOBUFS, 5 with ENFILE, 6 with EMFILE, 7 with ENOMEM;
 *                                            connect: 2 gets the port to be connected to as its own local port)
 *   dsend, drecv: microseconds to sleep before the call
 *
 * If K8V_FORK names an existing file, the next fork by the first process (K8V_FORKH: by any of its children) removes it and
 * fails with EAGAIN, as when a process limit is reached.
 *
 * K8V_SIGNAL holds entries "symlink:k:sig" or "setsid:k:sig": the process sends itself the signal right before its k-th
 * call of that function (counted from 0).
 *
 * recv with MSG_WAITALL is left alone. Only failures that the kernel can really produce here are injected.
 */
#define _GNU_SOURCE
#include <errno.h>
#include <netinet/in.h>
#include <poll.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>

enum { RECV, SEND, READ, WRITE, IPOLL, IREAD, IWRITE, IACCEPT, ICONNECT, DSEND, DRECV, COUNT };

static const char *const names[COUNT] = { "recv", "send", "read", "write", "ipoll", "iread", "iwrite", "iaccept", "iconnect", "dsend", "drecv" };
static int values[COUNT][64], counts[COUNT], next[COUNT], used[COUNT], initialized;
enum { LIMIT = 3000, DELAY_LIMIT = 400000 }; /* then calls pass through, so that a plan never makes a run endless */
static long delayed;

static void initialize(void)
{
	const char *plan = getenv("K8V_SHIM");

	initialized = 1;
	while (plan && *plan)
	{
		size_t length;
		int i;

		plan += strspn(plan, " ");
		length = strcspn(plan, ":");
		for (i = 0; i < COUNT; i++)
			if (strlen(names[i]) == length && strncmp(names[i], plan, length) == 0)
				break;
		if (i == COUNT || !plan[length])
			return;
		plan += length;
		while (*plan == ':' || *plan == ',')
		{
			int v = (int)strtol(plan + 1, (char **)&plan, 10);

			if (counts[i] < 64)
				values[i][counts[i]++] = v;
		}
	}
}

static int get(int kind)
{
	if (!initialized)
		initialize();
	if (!counts[kind] || ++used[kind] > LIMIT)
		return 0;
	return values[kind][next[kind]++ % counts[kind]];
}

static size_t limit(int kind, size_t length)
{
	int v = get(kind);

	return v > 0 && (size_t)v < length ? (size_t)v : length;
}

static void delay(int kind)
{
	int v = get(kind), saved = errno;

	if (v > 0 && (delayed += v + 100) < DELAY_LIMIT)
		usleep((useconds_t)v);
	errno = saved;
}

ssize_t __real_recv(int, void *, size_t, int);
ssize_t __real_send(int, const void *, size_t, int);
ssize_t __real_read(int, void *, size_t);
ssize_t __real_write(int, const void *, size_t);
int __real_poll(struct pollfd *, nfds_t, int);
int __real_accept(int, struct sockaddr *, socklen_t *);
int __real_connect(int, const struct sockaddr *, socklen_t);
pid_t __real_fork(void);
pid_t __real_waitpid(pid_t, int *, int);
pid_t __real_wait(int *);

ssize_t __wrap_recv(int fd, void *buffer, size_t length, int flags)
{
	delay(DRECV);
	return __real_recv(fd, buffer, (flags & MSG_WAITALL) ? length : limit(RECV, length), flags);
}

ssize_t __wrap_send(int fd, const void *buffer, size_t length, int flags)
{
	delay(DSEND);
	return __real_send(fd, buffer, limit(SEND, length), flags);
}

/* Regular files are never read or written partially */
static int isRegular(int fd)
{
	struct stat st;

	return fstat(fd, &st) == 0 && (S_ISREG(st.st_mode) || S_ISCHR(st.st_mode));
}

ssize_t __wrap_read(int fd, void *buffer, size_t length)
{
	return __real_read(fd, buffer, isRegular(fd) ? length : limit(READ, length));
}

ssize_t __wrap_write(int fd, const void *buffer, size_t length)
{
	if (isRegular(fd))
		return __real_write(fd, buffer, length);
	return __real_write(fd, buffer, limit(WRITE, length));
}

int __wrap_poll(struct pollfd *set, nfds_t count, int timeout)
{
	if (get(IPOLL) == 1)
	{
		errno = EINTR;
		return -1;
	}
	return __real_poll(set, count, timeout);
}

int __wrap_accept(int fd, struct sockaddr *address, socklen_t *length)
{
	int v = get(IACCEPT);

	if (v)
	{
		static const int errors[] = { EAGAIN, EINTR, ECONNABORTED, EAGAIN, ENOBUFS, ENFILE, EMFILE, ENOMEM };

		errno = errors[v & 7];
		return -1;
	}
	return __real_accept(fd, address, length);
}

int __wrap_connect(int fd, const struct sockaddr *address, socklen_t length)
{
	int v = get(ICONNECT);

	if (v == 1)
	{
		errno = EINTR;
		return -1;
	}
	if (v == 2 && address->sa_family == AF_INET)
	{
		/* The kernel happens to choose the port to be connected to as the local port, if it is free */
		uint32_t port = ntohs(((const struct sockaddr_in *)address)->sin_port), range = port << 16 | port;

		(void)setsockopt(fd, IPPROTO_IP, 51 /* IP_LOCAL_PORT_RANGE */, &range, sizeof(range));
	}
	return __real_connect(fd, address, length);
}

static pid_t first;

__attribute__((constructor)) static void remember(void) { first = getpid(); }

pid_t __wrap_fork(void)
{
	const char *path = getenv(getpid() == first ? "K8V_FORK" : "K8V_FORKH");

	if (path && unlink(path) == 0)
	{
		errno = EAGAIN;
		return -1;
	}
	return __real_fork();
}

pid_t __wrap_waitpid(pid_t pid, int *status, int options) { return __real_waitpid(pid, status, options); }
pid_t __wrap_wait(int *status) { return __real_wait(status); }

static void deliver(const char *name, int *calls)
{
	const char *plan = getenv("K8V_SIGNAL");
	size_t length = strlen(name);
	int k, sig, saved = errno;

	for (; plan && *plan; plan += strcspn(plan, " "), plan += strspn(plan, " "))
		if (strncmp(plan, name, length) == 0 && sscanf(plan + length, ":%d:%d", &k, &sig) == 2 && k == *calls)
			(void)kill(getpid(), sig);
	++*calls;
	errno = saved;
}

int __real_symlink(const char *, const char *);
pid_t __real_setsid(void);

int __wrap_symlink(const char *target, const char *path)
{
	static int calls;

	deliver("symlink", &calls);
	return __real_symlink(target, path);
}

pid_t __wrap_setsid(void)
{
	static int calls;

	deliver("setsid", &calls);
	return __real_setsid();
}
