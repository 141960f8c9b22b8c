// Runs f in a child process: did it end the program (assertion, exception)?
#pragma once
#include "common.hpp"
#include <fcntl.h>
#include <sys/wait.h>
namespace verif {
template <typename F> bool stops(F f) {
  fflush(nullptr);
  const pid_t pid = fork();
  if (pid == 0) {
    const int null = open("/dev/null", O_WRONLY);
    dup2(null, 2);
    dup2(null, 1);
    for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGILL, SIGBUS})
      signal(s, SIG_DFL);
    std::set_terminate([] { _exit(9); });
    alarm(20);
    f();
    _exit(0);
  }
  int status = 0;
  waitpid(pid, &status, 0);
  return !(WIFEXITED(status) && WEXITSTATUS(status) == 0);
}
} // namespace verif
