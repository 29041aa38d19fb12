/* The client insists on a file descriptor limit of a million before it opens a
 * ledger, which the sandbox does not grant.  Preloaded into the client, this
 * makes it believe it has it; nothing else is affected. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <sys/resource.h>

typedef int (*getter)(int, struct rlimit *);

static int ask(const char *name, int res, struct rlimit *r)
{
	getter real = (getter)dlsym(RTLD_NEXT, name);
	int rc = real ? real(res, r) : -1;

	if (rc == 0 && res == RLIMIT_NOFILE)
		r->rlim_cur = r->rlim_max = 1000000;
	return rc;
}

int getrlimit(__rlimit_resource_t res, struct rlimit *r)
{
	return ask("getrlimit", res, r);
}

int getrlimit64(__rlimit_resource_t res, struct rlimit64 *r)
{
	return ask("getrlimit64", res, (struct rlimit *)r);
}

/* Names of other hosts are not resolved; when MC_NAMES is set, they are noted
 * in the file it names. */
#include <fcntl.h>
#include <netdb.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

int getaddrinfo(const char *node, const char *service, const struct addrinfo *hints, struct addrinfo **res)
{
	typedef int (*resolver)(const char *, const char *, const struct addrinfo *, struct addrinfo **);
	resolver real = (resolver)dlsym(RTLD_NEXT, "getaddrinfo");
	const char *file = getenv("MC_NAMES");

	if (node && file) {
		int fd = open(file, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
		if (fd >= 0) {
			char line[512];
			size_t n = strlen(node);
			if (n > sizeof line - 1)
				n = sizeof line - 1;
			memcpy(line, node, n);
			line[n] = '\n';
			if (write(fd, line, n + 1) < 0)
				; /* seen as a name missing */
			close(fd);
		}
		return EAI_NONAME;
	}
	return real ? real(node, service, hints, res) : EAI_FAIL;
}
