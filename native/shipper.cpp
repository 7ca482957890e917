// Runs the real log shipper (its main() renamed to shipper_main) under the control of a checker.
//
// The process is a server: for every life of the shipper it receives a control socket, forks, and runs shipper_main in the child.
// The child stops at every point where the world may change under it (waiting, looking at a log file, posting, and - on demand -
// before every modification of its state), tells the controller, and goes on when told to. Being killed there is a real crash.
#include <cerrno>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <string>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/epoll.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <curl/curl.h>
#undef curl_easy_setopt
#undef curl_easy_getinfo

int shipper_main(int, char**);

static int ctl = -1;
static bool io_points = false;
static std::string logs, state_dir;
static bool logfd[4096], statefd[4096];
static thread_local int inside = 0;

template <class F> static F next(const char* name) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, name)); }
#define NEXT(name) static auto real = next<decltype(&::name)>(#name)

static ssize_t raw_write(int fd, const void* b, size_t n) { static auto real = next<ssize_t (*)(int, const void*, size_t)>("write"); return real(fd, b, n); }
static ssize_t raw_read(int fd, void* b, size_t n) { static auto real = next<ssize_t (*)(int, void*, size_t)>("read"); return real(fd, b, n); }

struct Reply { int32_t a, b; };

static Reply tell(char kind, const char* data, size_t n) {
  inside++;
  std::string msg(5 + n, 0);
  msg[0] = kind;
  uint32_t len = n;
  memcpy(&msg[1], &len, 4);
  memcpy(&msg[5], data, n);
  size_t done = 0;
  while (done < msg.size()) {
    ssize_t k = raw_write(ctl, msg.data() + done, msg.size() - done);
    if (k <= 0) _exit(77);
    done += k;
  }
  Reply r{};
  size_t got = 0;
  while (got < sizeof r) {
    ssize_t k = raw_read(ctl, reinterpret_cast<char*>(&r) + got, sizeof r - got);
    if (k <= 0) _exit(77);
    got += k;
  }
  inside--;
  return r;
}
static bool on() { return ctl >= 0 && !inside; }
static void point(const char* what, const char* path) {
  std::string s = std::string(what) + " " + path;
  tell('P', s.data(), s.size());
}
static bool is_log(const char* p) { return p && logs.size() && strncmp(p, logs.c_str(), logs.size()) == 0; }
static bool is_state(const char* p) { return p && state_dir.size() && strncmp(p, state_dir.c_str(), state_dir.size()) == 0; }
static void io(const char* what) { if (io_points) tell('I', what, strlen(what)); }

// There are only so many inotify instances per user, and the kernel takes a while to let go of those of killed processes.
template <class F> static int patiently(F f) {
  int fd = -1;
  for (int k = 0; k < 100000; k++) {
    fd = f();
    if (fd >= 0 || (errno != EMFILE && errno != ENFILE && errno != ENOMEM)) break;
    static auto pause = next<int (*)(const struct timespec*, struct timespec*)>("nanosleep");
    struct timespec t{0, 2000000};
    pause(&t, nullptr);
  }
  return fd;
}

extern "C" {
static void opened(int fd, const char* p) {
  if (fd >= 0 && fd < 4096) { logfd[fd] = is_log(p); statefd[fd] = is_state(p); }
}
#define OPEN(name)                                                             \
  int name(const char* p, int fl, ...) {                                       \
    static auto real = next<int (*)(const char*, int, ...)>(#name);            \
    va_list ap; va_start(ap, fl); int mode = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(ap, int) : 0; va_end(ap); \
    if (on() && is_log(p)) point("open", p + logs.size());                     \
    int fd = real(p, fl, mode);                                                \
    if (ctl >= 0) opened(fd, p);                                               \
    return fd;                                                                 \
  }
OPEN(open)
OPEN(open64)
#define OPENAT(name)                                                           \
  int name(int d, const char* p, int fl, ...) {                                \
    static auto real = next<int (*)(int, const char*, int, ...)>(#name);       \
    va_list ap; va_start(ap, fl); int mode = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(ap, int) : 0; va_end(ap); \
    if (on() && is_log(p)) point("open", p + logs.size());                     \
    int fd = real(d, p, fl, mode);                                             \
    if (ctl >= 0) opened(fd, p);                                               \
    return fd;                                                                 \
  }
OPENAT(openat)
OPENAT(openat64)
#define FOPEN(name)                                                            \
  FILE* name(const char* p, const char* m) {                                   \
    static auto real = next<FILE* (*)(const char*, const char*)>(#name);       \
    if (on() && is_log(p)) point("open", p + logs.size());                     \
    FILE* f = real(p, m);                                                      \
    if (ctl >= 0 && f) opened(fileno(f), p);                                   \
    return f;                                                                  \
  }
FOPEN(fopen)
FOPEN(fopen64)
#define STAT(name, T)                                                          \
  int name(const char* p, T* s) {                                              \
    static auto real = next<int (*)(const char*, T*)>(#name);                  \
    if (on() && is_log(p)) point("stat", p + logs.size());                     \
    return real(p, s);                                                         \
  }
STAT(stat, struct stat)
STAT(lstat, struct stat)
STAT(stat64, struct stat64)
STAT(lstat64, struct stat64)
#define FSTAT(name, T)                                                         \
  int name(int fd, T* s) {                                                     \
    static auto real = next<int (*)(int, T*)>(#name);                          \
    if (on() && fd >= 0 && fd < 4096 && logfd[fd]) point("fstat", "");         \
    return real(fd, s);                                                        \
  }
FSTAT(fstat, struct stat)
FSTAT(fstat64, struct stat64)
ssize_t read(int fd, void* b, size_t n) {
  if (on() && fd >= 0 && fd < 4096 && logfd[fd]) point("read", "");
  return raw_read(fd, b, n);
}
#define LOGFD(fd) (on() && (fd) >= 0 && (fd) < 4096 && logfd[fd])
#define PREAD(name, O)                                                         \
  ssize_t name(int fd, void* b, size_t n, O o) {                               \
    static auto real = next<ssize_t (*)(int, void*, size_t, O)>(#name);        \
    if (LOGFD(fd)) point("read", "");                                          \
    return real(fd, b, n, o);                                                  \
  }
PREAD(pread, off_t)
PREAD(pread64, off64_t)
ssize_t readv(int fd, const struct iovec* v, int n) {
  static auto real = next<ssize_t (*)(int, const struct iovec*, int)>("readv");
  if (LOGFD(fd)) point("read", "");
  return real(fd, v, n);
}
int statx(int d, const char* p, int f, unsigned m, struct statx* s) noexcept {
  static auto real = next<int (*)(int, const char*, int, unsigned, struct statx*)>("statx");
  if (on() && p && is_log(p)) point("stat", p + logs.size());
  return real(d, p, f, m, s);
}
int fstatat(int d, const char* p, struct stat* s, int f) noexcept {
  static auto real = next<int (*)(int, const char*, struct stat*, int)>("fstatat");
  if (on() && p && is_log(p)) point("stat", p + logs.size());
  return real(d, p, s, f);
}
DIR* fdopendir(int fd) {
  static auto real = next<DIR* (*)(int)>("fdopendir");
  if (on()) point("list", "");
  return real(fd);
}
DIR* opendir(const char* p) {
  static auto real = next<DIR* (*)(const char*)>("opendir");
  if (on() && logs.compare(0, logs.size() - 1, p) == 0) point("list", "");
  return real(p);
}
int close(int fd) {
  static auto real = next<int (*)(int)>("close");
  if (fd >= 0 && fd < 4096) logfd[fd] = statefd[fd] = false;
  return real(fd);
}
// modifications of the state
#define STATEFD(fd) (on() && (fd) >= 0 && (fd) < 4096 && statefd[fd])
ssize_t write(int fd, const void* b, size_t n) { if (STATEFD(fd)) io("write"); return raw_write(fd, b, n); }
ssize_t pwrite(int fd, const void* b, size_t n, off_t o) { static auto real = next<ssize_t (*)(int, const void*, size_t, off_t)>("pwrite"); if (STATEFD(fd)) io("write"); return real(fd, b, n, o); }
ssize_t pwrite64(int fd, const void* b, size_t n, off64_t o) { static auto real = next<ssize_t (*)(int, const void*, size_t, off64_t)>("pwrite64"); if (STATEFD(fd)) io("write"); return real(fd, b, n, o); }
int ftruncate(int fd, off_t n) noexcept { static auto real = next<int (*)(int, off_t)>("ftruncate"); if (STATEFD(fd)) io("truncate"); return real(fd, n); }
int ftruncate64(int fd, off64_t n) noexcept { static auto real = next<int (*)(int, off64_t)>("ftruncate64"); if (STATEFD(fd)) io("truncate"); return real(fd, n); }
int unlink(const char* p) noexcept { static auto real = next<int (*)(const char*)>("unlink"); if (on() && is_state(p)) io("unlink"); return real(p); }
int rename(const char* a, const char* b) noexcept { static auto real = next<int (*)(const char*, const char*)>("rename"); if (on() && is_state(a)) io("rename"); return real(a, b); }
int fsync(int) { return 0; }
int inotify_init1(int f) noexcept { static auto real = next<int (*)(int)>("inotify_init1"); return patiently([&] { return real(f); }); }
int inotify_init() noexcept { static auto real = next<int (*)()>("inotify_init"); return patiently([&] { return real(); }); }
int fdatasync(int) { return 0; }

// waiting: the controller decides when it ends; what the kernel would then report is reported, and where that is nothing, the
// controller is told how long the wait would have been (and may extend it)
static void wait_point() { tell('S', "", 0); }
static bool over(double seconds) {
  std::string s = std::to_string(seconds < 0 ? 1e12 : seconds);
  return tell('T', s.data(), s.size()).a == 0;
}
static double secs(const struct timespec* t) { return t ? t->tv_sec + t->tv_nsec / 1e9 : -1; }
int select(int n, fd_set* r, fd_set* w, fd_set* e, struct timeval* t) {
  static auto real = next<int (*)(int, fd_set*, fd_set*, fd_set*, struct timeval*)>("select");
  if (on() && (!t || t->tv_sec || t->tv_usec)) {
    wait_point();
    fd_set R, W, E;
    if (r) R = *r; if (w) W = *w; if (e) E = *e;
    for (;;) {
      struct timeval z{0, 0};
      int k = real(n, r, w, e, &z);
      if (k || over(t ? t->tv_sec + t->tv_usec / 1e6 : -1)) return k;
      if (r) *r = R; if (w) *w = W; if (e) *e = E;
    }
  }
  return real(n, r, w, e, t);
}
int pselect(int n, fd_set* r, fd_set* w, fd_set* e, const struct timespec* t, const sigset_t* m) {
  static auto real = next<int (*)(int, fd_set*, fd_set*, fd_set*, const struct timespec*, const sigset_t*)>("pselect");
  if (on() && (!t || t->tv_sec || t->tv_nsec)) {
    wait_point();
    fd_set R, W, E;
    if (r) R = *r; if (w) W = *w; if (e) E = *e;
    for (;;) {
      struct timespec z{0, 0};
      int k = real(n, r, w, e, &z, m);
      if (k || over(secs(t))) return k;
      if (r) *r = R; if (w) *w = W; if (e) *e = E;
    }
  }
  return real(n, r, w, e, t, m);
}
int poll(struct pollfd* f, nfds_t n, int t) {
  static auto real = next<int (*)(struct pollfd*, nfds_t, int)>("poll");
  if (on() && t != 0) {
    wait_point();
    for (;;) { int k = real(f, n, 0); if (k || over(t / 1e3)) return k; }
  }
  return real(f, n, t);
}
int epoll_wait(int e, struct epoll_event* v, int n, int t) {
  static auto real = next<int (*)(int, struct epoll_event*, int, int)>("epoll_wait");
  if (on() && t != 0) {
    wait_point();
    for (;;) { int k = real(e, v, n, 0); if (k || over(t / 1e3)) return k; }
  }
  return real(e, v, n, t);
}
static void doze(double s) { wait_point(); while (!over(s)) {} }
int nanosleep(const struct timespec* a, struct timespec* b) {
  static auto real = next<int (*)(const struct timespec*, struct timespec*)>("nanosleep");
  if (on()) { doze(secs(a)); return 0; }
  return real(a, b);
}
int clock_nanosleep(clockid_t c, int f, const struct timespec* a, struct timespec* b) {
  static auto real = next<int (*)(clockid_t, int, const struct timespec*, struct timespec*)>("clock_nanosleep");
  if (on()) {
    double s = secs(a);
    if (f & TIMER_ABSTIME) { struct timespec now{}; clock_gettime(c, &now); s -= secs(&now); if (s < 0) s = 0; }
    doze(s);
    return 0;
  }
  return real(c, f, a, b);
}
int usleep(useconds_t u) {
  static auto real = next<int (*)(useconds_t)>("usleep");
  if (on()) { doze(u / 1e6); return 0; }
  return real(u);
}
unsigned sleep(unsigned s) {
  static auto real = next<unsigned (*)(unsigned)>("sleep");
  if (on()) { doze(s); return 0; }
  return real(s);
}

// the HTTP transfer
static std::string body, url, headers;
static const char* fields = nullptr;
static long nfields = -1;
static bool copied = false;
static long status = 0;
static curl_write_callback wcb = nullptr;
static void* wdata = nullptr;
CURLcode curl_easy_setopt(CURL* h, CURLoption o, ...) {
  static auto real = next<CURLcode (*)(CURL*, CURLoption, ...)>("curl_easy_setopt");
  va_list ap; va_start(ap, o);
  CURLcode rc;
  if (o < CURLOPTTYPE_OBJECTPOINT || (o >= CURLOPTTYPE_OFF_T && o < CURLOPTTYPE_BLOB)) {
    if (o >= CURLOPTTYPE_OFF_T) { curl_off_t v = va_arg(ap, curl_off_t); if (o == CURLOPT_POSTFIELDSIZE_LARGE) nfields = v; rc = real(h, o, v); }
    else { long v = va_arg(ap, long); if (o == CURLOPT_POSTFIELDSIZE) nfields = v; rc = real(h, o, v); }
  } else {
    void* v = va_arg(ap, void*);
    if (o == CURLOPT_POSTFIELDS) { fields = static_cast<const char*>(v); copied = false; }
    if (o == CURLOPT_COPYPOSTFIELDS && v) { const char* p = static_cast<const char*>(v); body.assign(p, nfields >= 0 ? nfields : (long)strlen(p)); copied = true; }
    if (o == CURLOPT_HTTPHEADER) { headers.clear(); for (auto* l = static_cast<struct curl_slist*>(v); l; l = l->next) headers += std::string("\t") + l->data; }
    if (o == CURLOPT_URL && v) url = static_cast<const char*>(v);
    if (o == CURLOPT_WRITEFUNCTION) wcb = reinterpret_cast<curl_write_callback>(v);
    if (o == CURLOPT_WRITEDATA) wdata = v;
    rc = real(h, o, v);
  }
  va_end(ap);
  return rc;
}
CURLcode curl_easy_perform(CURL*) {
  std::string b = copied ? body : fields ? std::string(fields, nfields >= 0 ? nfields : (long)strlen(fields)) : std::string();
  std::string msg = url + headers + "\n" + b;
  headers.clear();
  Reply r = tell('H', msg.data(), msg.size());
  status = r.b;
  fields = nullptr; nfields = -1; copied = false;
  if (r.b && wcb) { char text[] = "server says so"; wcb(text, 1, sizeof text - 1, wdata); }
  wcb = nullptr; wdata = nullptr;
  return static_cast<CURLcode>(r.a);
}
CURLcode curl_easy_getinfo(CURL* h, CURLINFO i, ...) {
  static auto real = next<CURLcode (*)(CURL*, CURLINFO, ...)>("curl_easy_getinfo");
  va_list ap; va_start(ap, i);
  void* p = va_arg(ap, void*);
  va_end(ap);
  if (i == CURLINFO_RESPONSE_CODE) { *static_cast<long*>(p) = status; return CURLE_OK; }
  return real(h, i, p);
}
}

int main(int argc, char** argv) {
  int server = atoi(argv[1]);
  std::deque<pid_t> left;
  curl_global_init(CURL_GLOBAL_DEFAULT);
  for (;;) {
    char buf[8192];
    char cbuf[CMSG_SPACE(sizeof(int))];
    struct iovec iov{buf, sizeof buf - 1};
    struct msghdr m{};
    m.msg_iov = &iov; m.msg_iovlen = 1; m.msg_control = cbuf; m.msg_controllen = sizeof cbuf;
    ssize_t n = recvmsg(server, &m, 0);
    if (n <= 0) return 0;
    buf[n] = 0;
    if (buf[0] == 'R') {                 // reap
      int st = 0;
      pid_t pid = atoi(buf + 1);
      std::erase(left, pid);
      waitpid(pid, &st, 0);
      int32_t out = st;
      if (raw_write(server, &out, sizeof out) != sizeof out) return 1;
      continue;
    }
    int fd = *reinterpret_cast<int*>(CMSG_DATA(CMSG_FIRSTHDR(&m)));
    // F<io>\n<log dir>\n<state dir>\n<state path>
    pid_t pid = fork();
    if (pid) {                           // those nobody waits for
      while (!left.empty()) {
        int st;
        if (waitpid(left.front(), &st, WNOHANG) == 0) break;
        left.pop_front();
      }
      left.push_back(pid);
    }
    if (pid == 0) {
      close(server);
      std::string s(buf + 1);
      io_points = s[0] == '1';
      size_t a = s.find('\n'), b = s.find('\n', a + 1), c = s.find('\n', b + 1);
      std::string dir = s.substr(a + 1, b - a - 1), db = s.substr(c + 1);
      logs = dir + "/";
      state_dir = s.substr(b + 1, c - b - 1) + "/";
      int nul = ::open("/dev/null", O_RDWR);
      dup2(nul, 1); dup2(nul, 2);
      ctl = fd;
      std::string ep = "http://collector/v1/logs", prog = "ekosis_log_shipper";
      char* av[] = {prog.data(), dir.data(), ep.data(), db.data(), nullptr};
      int rc = shipper_main(4, av);
      _exit(rc ? rc : 76);
    }
    close(fd);
    int32_t out = pid;
    if (raw_write(server, &out, sizeof out) != sizeof out) return 1;
  }
}
