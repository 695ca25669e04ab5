// Stand-in for tiny-process-library (third_party/ is empty offline). Same constructor contract and unix
// semantics as the library: run "/bin/sh -c [cd 'path' && ]command" in its own process group, feed bytes of
// redirected streams to the callbacks from one reader thread, get_exit_status() waits for both.
#pragma once
#include <cerrno>
#include <cstddef>
#include <fcntl.h>
#include <functional>
#include <memory>
#include <poll.h>
#include <spawn.h>
#include <string>
#include <sys/types.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include <vector>

extern char **environ;

namespace TinyProcessLib {

class Process {
public:
  using string_type = std::string;
  using id_type = pid_t;

  Process(const string_type &command, const string_type &path = string_type(),
          std::function<void(const char *bytes, size_t n)> read_stdout = nullptr,
          std::function<void(const char *bytes, size_t n)> read_stderr = nullptr)
      : out_cb_(std::move(read_stdout)), err_cb_(std::move(read_stderr)) {
    std::string cmd = command;
    if (!path.empty()) {
      std::string p = path;
      for (size_t pos = 0; (pos = p.find('\'', pos)) != std::string::npos; pos += 4)
        p.replace(pos, 1, "'\\''");
      cmd = "cd '" + p + "' && " + command;
    }
    int po[2] = {-1, -1}, pe[2] = {-1, -1};
    if (out_cb_ && pipe2(po, O_CLOEXEC) != 0) return;
    if (err_cb_ && pipe2(pe, O_CLOEXEC) != 0) return;
    posix_spawn_file_actions_t fa;
    posix_spawn_file_actions_init(&fa);
    if (out_cb_) posix_spawn_file_actions_adddup2(&fa, po[1], 1);
    if (err_cb_) posix_spawn_file_actions_adddup2(&fa, pe[1], 2);
    posix_spawnattr_t at;
    posix_spawnattr_init(&at);
    posix_spawnattr_setpgroup(&at, 0);
    posix_spawnattr_setflags(&at, POSIX_SPAWN_SETPGROUP);
    char *const argv[] = {const_cast<char *>("/bin/sh"), const_cast<char *>("-c"),
                          const_cast<char *>(cmd.c_str()), nullptr};
    if (posix_spawn(&pid_, "/bin/sh", &fa, &at, argv, environ) != 0) pid_ = -1;
    posix_spawnattr_destroy(&at);
    posix_spawn_file_actions_destroy(&fa);
    if (po[1] >= 0) close(po[1]);
    if (pe[1] >= 0) close(pe[1]);
    ofd_ = po[0];
    efd_ = pe[0];
    if (ofd_ >= 0 || efd_ >= 0) reader_ = std::thread([this]() { read_all(); });
  }
  Process(const Process &) = delete;
  ~Process() {
    if (reader_.joinable()) reader_.join();
  }

  id_type get_id() const noexcept { return pid_; }

  int get_exit_status() noexcept {
    if (pid_ <= 0) return -1;
    int st = 0;
    pid_t p;
    do { p = waitpid(pid_, &st, 0); } while (p < 0 && errno == EINTR);
    if (reader_.joinable()) reader_.join();
    if (p < 0) return -1;
    if (WIFEXITED(st)) return WEXITSTATUS(st);
    return st >= 256 ? st >> 8 : st;
  }

private:
  void read_all() {
    std::vector<char> buf(131072);
    struct pollfd fds[2] = {{ofd_, POLLIN, 0}, {efd_, POLLIN, 0}};
    while (fds[0].fd >= 0 || fds[1].fd >= 0) {
      if (poll(fds, 2, -1) < 0) {
        if (errno == EINTR) continue;
        break;
      }
      for (int i = 0; i < 2; i++) {
        if (fds[i].fd < 0 || !(fds[i].revents & (POLLIN | POLLHUP | POLLERR))) continue;
        ssize_t n = read(fds[i].fd, buf.data(), buf.size());
        if (n > 0) {
          (i == 0 ? out_cb_ : err_cb_)(buf.data(), (size_t)n);
        } else if (n == 0 || errno != EINTR) {
          close(fds[i].fd);
          fds[i].fd = -1;
        }
      }
    }
  }

  std::function<void(const char *, size_t)> out_cb_, err_cb_;
  pid_t pid_{-1};
  int ofd_{-1}, efd_{-1};
  std::thread reader_;
};

} // namespace TinyProcessLib
