// Run a computation in a child process: it starts from the same state of the process,
// the random numbers of the library included, and leaves no trace in it.
#pragma once
#include "pbt.h"
#include <cstring>
#include <functional>
#include <sys/wait.h>
#include <unistd.h>

namespace child {
	inline std::vector<double> run(pbt::Case& c, const char* what, const std::function<std::vector<double>()>& f)
	{
		int fd[2];
		if (pipe(fd))
			throw pbt::Discard();
		pid_t pid = fork();
		if (pid < 0)
			throw pbt::Discard();
		if (pid == 0) {
			close(fd[0]);
			std::vector<double> v;
			int code = 0;
			try {
				v = f();
			} catch (pbt::Failure&) {
				code = 40;
			} catch (std::exception&) {
				code = 41;
			}
			const char* buf = (const char*)v.data();
			for (size_t at = 0, n = v.size() * sizeof(double); at < n;) {
				ssize_t k = write(fd[1], buf + at, n - at);
				if (k <= 0)
					_exit(42);
				at += k;
			}
			_exit(code);
		}
		close(fd[1]);
		std::string buf;
		char tmp[65536];
		ssize_t k;
		while ((k = read(fd[0], tmp, sizeof tmp)) > 0)
			buf.append(tmp, k);
		close(fd[0]);
		int st = 0;
		waitpid(pid, &st, 0);
		c.check(WIFEXITED(st) && WEXITSTATUS(st) == 0, what, " ends abnormally (", WIFSIGNALED(st) ? "signal " : "exit ", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st), ")");
		std::vector<double> out(buf.size() / sizeof(double));
		memcpy(out.data(), buf.data(), out.size() * sizeof(double));
		return out;
	}
}
