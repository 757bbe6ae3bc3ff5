/*
 * spy CTL REP DIR program [args]
 *
 * Runs program and stops it before each system call which concerns the
 * files below DIR (by path or by descriptor), or one of its standard
 * descriptors.  Each stop is reported on descriptor REP as a line
 *
 *	E <name> <fd> <length> <path>
 *
 * and the answer read from descriptor CTL is one line
 *
 *	c		let it happen
 *	f <errno>	let it fail
 *	s <n>		transfer at most n bytes
 *	k		kill the program
 *	r		run on without stopping any more
 *
 * With SPY_CLOSE in the environment, also before each close.
 *
 * At the end "X <wait status>" is reported.
 */
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ptrace.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <unistd.h>

enum kind { PATH1, PATH2, PATH12, PATH24, FD, FDLEN, FDV, FDM };

static const struct sc {
	long		nr;
	const char	*name;
	enum kind	kind;
} scs[] = {
	{ SYS_open, "open", PATH1 }, { SYS_openat, "open", PATH2 }, { SYS_creat, "open", PATH1 },
	{ SYS_stat, "stat", PATH1 }, { SYS_lstat, "stat", PATH1 }, { SYS_newfstatat, "stat", PATH2 },
	{ SYS_statx, "stat", PATH2 }, { SYS_access, "stat", PATH1 }, { SYS_faccessat, "stat", PATH2 },
	{ SYS_link, "link", PATH12 }, { SYS_linkat, "link", PATH24 },
	{ SYS_rename, "rename", PATH12 }, { SYS_renameat, "rename", PATH24 }, { SYS_renameat2, "rename", PATH24 },
	{ SYS_unlink, "unlink", PATH1 }, { SYS_unlinkat, "unlink", PATH2 },
	{ SYS_mkdir, "mkdir", PATH1 }, { SYS_mkdirat, "mkdir", PATH2 }, { SYS_rmdir, "unlink", PATH1 },
	{ SYS_chmod, "chmod", PATH1 }, { SYS_fchmodat, "chmod", PATH2 }, { SYS_truncate, "ftruncate", PATH1 },
	{ SYS_symlink, "link", PATH12 },
	{ SYS_write, "write", FDLEN }, { SYS_pwrite64, "write", FDLEN }, { SYS_writev, "writev", FDV },
	{ SYS_pwritev, "writev", FDV },
	{ SYS_read, "read", FDLEN }, { SYS_pread64, "read", FDLEN }, { SYS_readv, "readv", FDV },
	{ SYS_ftruncate, "ftruncate", FD }, { SYS_fsync, "fsync", FD }, { SYS_fdatasync, "fsync", FD },
	{ SYS_fchmod, "chmod", FD }, { SYS_fallocate, "fallocate", FD }, { SYS_fstat, "fstat", FD },
	{ SYS_mmap, "mmap", FDM }, { SYS_close, "close", FD },
	{ SYS_flock, "flock", FD }, { SYS_copy_file_range, "write", FD }, { SYS_sendfile, "write", FD },
	{ 0, NULL, 0 }
};

static pid_t pid;
static const char *dir;
static size_t dirl;
static FILE *ctl, *rep;

static void
peekstr(unsigned long a, char *buf, size_t len)
{
	size_t i, j;
	long w;

	for (i = 0; i + sizeof w < len; i += sizeof w) {
		errno = 0;
		w = ptrace(PTRACE_PEEKDATA, pid, a + i, 0);
		if (errno)
			break;
		memcpy(buf + i, &w, sizeof w);
		for (j = 0; j < sizeof w; j++)
			if (buf[i + j] == '\0')
				return;
	}
	buf[i] = '\0';
}

static void
fdpath(int fd, char *buf, size_t len)
{
	char p[64];
	ssize_t n;

	snprintf(p, sizeof p, "/proc/%d/fd/%d", (int)pid, fd);
	n = readlink(p, buf, len - 1);
	buf[n < 0 ? 0 : n] = '\0';
}

static int
below(const char *p)
{
	return (!strncmp(p, dir, dirl));
}

int
main(int argc, char **argv)
{
	const struct sc *s;
	struct user_regs_struct r, r0;
	struct iovec iov;
	char p1[4096], p2[4096], ans[128];
	int st, sig = 0, entry = 1, want, fd, err = 0, run = 0, fail = 0, fixiov = 0;
	long len, n;
	unsigned long iovp = 0;
	long saved = 0;
	int closes;
	int std[3] = { 1, 1, 1 };

	if (argc < 5)
		return (2);
	ctl = fdopen(atoi(argv[1]), "r");
	rep = fdopen(atoi(argv[2]), "w");
	dir = argv[3];
	dirl = strlen(dir);
	closes = getenv("SPY_CLOSE") != NULL;
	if (ctl == NULL || rep == NULL)
		return (2);
	fcntl(fileno(ctl), F_SETFD, FD_CLOEXEC);
	fcntl(fileno(rep), F_SETFD, FD_CLOEXEC);
	pid = fork();
	if (pid == 0) {
		ptrace(PTRACE_TRACEME, 0, 0, 0);
		raise(SIGSTOP);
		execv(argv[4], argv + 4);
		_exit(127);
	}
	if (pid < 0 || waitpid(pid, &st, 0) != pid || !WIFSTOPPED(st))
		return (2);
	ptrace(PTRACE_SETOPTIONS, pid, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL);
	/* up to the exec */
	while (1) {
		if (ptrace(run ? PTRACE_CONT : PTRACE_SYSCALL, pid, 0, sig))
			break;
		sig = 0;
		if (waitpid(pid, &st, 0) != pid)
			break;
		if (WIFEXITED(st) || WIFSIGNALED(st))
			break;
		if (!WIFSTOPPED(st))
			continue;
		if (WSTOPSIG(st) != (SIGTRAP | 0x80)) {
			if (WSTOPSIG(st) != SIGTRAP && WSTOPSIG(st) != SIGSTOP)
				sig = WSTOPSIG(st);
			continue;
		}
		if (ptrace(PTRACE_GETREGS, pid, 0, &r))
			continue;
		if (!entry) {
			entry = 1;
			if (fail) {
				r.rax = -(long)err;
				ptrace(PTRACE_SETREGS, pid, 0, &r);
				fail = 0;
			}
			if (fixiov) {
				/* put back what was changed to make the call short */
				if (fixiov == 1) {
					ptrace(PTRACE_POKEDATA, pid, iovp, saved);
				}
				r.rdx = r0.rdx;
				ptrace(PTRACE_SETREGS, pid, 0, &r);
				fixiov = 0;
			}
			continue;
		}
		entry = 0;
		for (s = scs; s->name != NULL; s++)
			if (s->nr == (long)r.orig_rax)
				break;
		if (s->name == NULL || run || (s->nr == SYS_close && !closes))
			continue;
		want = 0;
		fd = -1;
		len = 0;
		p1[0] = p2[0] = '\0';
		switch (s->kind) {
		case PATH1: peekstr(r.rdi, p1, sizeof p1); want = below(p1); break;
		case PATH2:
			if (s->nr == SYS_newfstatat || s->nr == SYS_statx) {
				/* with an empty path it is fstat(2) */
				peekstr(r.rsi, p1, sizeof p1);
				want = below(p1);
			} else {
				peekstr(r.rsi, p1, sizeof p1);
				want = below(p1);
			}
			if (s->nr == SYS_openat)
				len = r.rdx;
			break;
		case PATH12: peekstr(r.rdi, p1, sizeof p1); peekstr(r.rsi, p2, sizeof p2); want = below(p1) || below(p2); break;
		case PATH24: peekstr(r.rsi, p1, sizeof p1); peekstr(r.r10, p2, sizeof p2); want = below(p1) || below(p2); break;
		case FDM: break;
		case FD:
		case FDLEN:
		case FDV:
			fd = (int)r.rdi;
			fdpath(fd, p1, sizeof p1);
			want = below(p1) || (fd >= 0 && fd <= 2 && std[fd] && s->kind != FD);
			len = r.rdx;
			break;
		}
		if (s->kind == FDM) {
			fd = (int)r.r8;
			if (fd >= 0)
				fdpath(fd, p1, sizeof p1);
			want = below(p1);
			len = r.rsi;
		}
		if (s->nr == SYS_open)
			len = r.rsi;
		if (!want)
			continue;
		if (s->kind == FDV) {
			long k;

			len = 0;
			for (k = 0; k < (long)r.rdx && k < 1024; k++)
				len += ptrace(PTRACE_PEEKDATA, pid,
				    r.rsi + k * sizeof iov + offsetof(struct iovec, iov_len), 0);
		}
		fprintf(rep, "E %s %d %ld %s%s%s\n", s->name, fd, len, p1, p2[0] ? " " : "", p2);
		fflush(rep);
		if (fgets(ans, sizeof ans, ctl) == NULL || ans[0] == 'k') {
			kill(pid, SIGKILL);
			continue;
		}
		if (ans[0] == 'r')
			run = 1;
		if (ans[0] == 'f') {
			err = atoi(ans + 1);
			fail = 1;
			r.orig_rax = -1;
			ptrace(PTRACE_SETREGS, pid, 0, &r);
		}
		if (ans[0] == 's') {
			n = atol(ans + 1);
			r0 = r;
			if (s->kind == FDV) {
				/* give it the first vectors only, the last one cut */
				long k, tot = 0, a;
				for (k = 0; k < (long)r.rdx; k++) {
					a = ptrace(PTRACE_PEEKDATA, pid, r.rsi + k * sizeof iov + offsetof(struct iovec, iov_len), 0);
					if (tot + a >= n) {
						iovp = r.rsi + k * sizeof iov + offsetof(struct iovec, iov_len);
						saved = a;
						ptrace(PTRACE_POKEDATA, pid, iovp, n - tot);
						fixiov = 1;
						r.rdx = k + 1;
						break;
					}
					tot += a;
				}
			} else {
				if (n < (long)r.rdx)
					r.rdx = n;
				fixiov = 2;
			}
			ptrace(PTRACE_SETREGS, pid, 0, &r);
		}
	}
	fprintf(rep, "X %d\n", st);
	fflush(rep);
	return (0);
}
