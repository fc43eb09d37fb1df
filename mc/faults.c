/* Faults in the system calls a process makes for files in a directory

   Loaded with LD_PRELOAD.  Nothing happens until faults_arm is called.  Each call that
   matters gets a number, starting with 1, and a line in the log, which is memory the
   caller shares with its parent. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>

enum { NONE, KILL, FAIL, SHORT, KILL_PARTIAL, FAIL_PARTIAL };

static int armed, mode, target, param, error, failing, count;
static char *log_at, *log_end;
static char names[1024][256];
static char root[512];
static size_t root_size;

#define REAL(name) \
  static __typeof__(name) *real; \
  if (!real) real = (__typeof__(name) *)dlsym(RTLD_NEXT, #name);

void faults_arm(char *shared, int size, int mode_, int target_, int param_, int error_,
                const char *root_) {
  snprintf(root, sizeof root, "%s/", root_);
  root_size = strlen(root);
  log_at = shared;
  log_end = shared + size;
  mode = mode_;
  target = target_;
  param = param_;
  error = error_;
  count = 0;
  failing = 0;
  memset(names, 0, sizeof names);
  strcpy(names[1], "<stdout>");
  armed = 1;
}

void faults_disarm(void) { armed = 0; }

/* Returns whether the call is to fail */
static int event(const char *what, const char *name, long detail) {
  if (!armed) return 0;
  count++;
  if (log_at + strlen(name) + 64 < log_end)
    log_at += sprintf(log_at, "%d\t%s\t%ld\t%s\n", count, what, detail, name);
  if (count == target) {
    if (mode == KILL) raise(SIGKILL);
    if (mode == FAIL) {
      errno = error;
      return 1;
    }
  }
  return 0;
}

static int relevant(const char *path) {
  return armed && path && (path[0] != '/' || !strncmp(path, root, root_size));
}

static const char *short_name(const char *path) {
  return strncmp(path, root, root_size) ? path : path + root_size;
}

static int opened(int fd, const char *path) {
  if (fd >= 0 && fd < 1024) snprintf(names[fd], sizeof names[fd], "%s", short_name(path));
  return fd;
}

#define WRITING(flags) (((flags) & O_ACCMODE) != O_RDONLY || ((flags) & O_TRUNC))

#define OPEN(function) \
  int function(const char *path, int flags, ...) { \
    REAL(function) \
    mode_t bits = 0; \
    if (flags & (O_CREAT | __O_TMPFILE)) { \
      va_list ap; \
      va_start(ap, flags); \
      bits = va_arg(ap, mode_t); \
      va_end(ap); \
    } \
    if (!relevant(path) || (flags & O_DIRECTORY)) return real(path, flags, bits); \
    if (event(WRITING(flags) ? "open-write" : "open-read", short_name(path), flags)) return -1; \
    return opened(real(path, flags, bits), path); \
  }
OPEN(open)
OPEN(open64)

#define OPENAT(function) \
  int function(int dir, const char *path, int flags, ...) { \
    REAL(function) \
    mode_t bits = 0; \
    if (flags & (O_CREAT | __O_TMPFILE)) { \
      va_list ap; \
      va_start(ap, flags); \
      bits = va_arg(ap, mode_t); \
      va_end(ap); \
    } \
    if (!relevant(path) || (flags & O_DIRECTORY)) return real(dir, path, flags, bits); \
    if (event(WRITING(flags) ? "open-write" : "open-read", short_name(path), flags)) return -1; \
    return opened(real(dir, path, flags, bits), path); \
  }
OPENAT(openat)
OPENAT(openat64)

ssize_t write(int fd, const void *data, size_t size) {
  REAL(write)
  if (!armed || fd < 0 || fd >= 1024 || !names[fd][0]) return real(fd, data, size);
  if (event("write", names[fd], size)) return -1;
  if (failing) {
    errno = error;
    return -1;
  }
  if (count == target && (size_t)param < size) {
    if (mode == SHORT) return real(fd, data, param);
    if (mode == KILL_PARTIAL) {
      ssize_t done = param ? real(fd, data, param) : 0;
      (void)done;
      raise(SIGKILL);
    }
    if (mode == FAIL_PARTIAL) {
      failing = 1;
      if (param) return real(fd, data, param);
      errno = error;
      return -1;
    }
  }
  return real(fd, data, size);
}

ssize_t read(int fd, void *data, size_t size) {
  REAL(read)
  if (!armed || fd < 0 || fd >= 1024 || !names[fd][0] || fd < 3)
    return real(fd, data, size);
  if (event("read", names[fd], size)) return -1;
  if (count == target && mode == SHORT && (size_t)param < size && param)
    return real(fd, data, param);
  return real(fd, data, size);
}

int close(int fd) {
  REAL(close)
  if (!armed || fd < 3 || fd >= 1024 || !names[fd][0]) return real(fd);
  int fails = event("close", names[fd], fd);
  names[fd][0] = 0;
  int result = real(fd);
  if (fails) {
    errno = error;
    return -1;
  }
  return result;
}

#define PATH_CALL(what, function, declaration, arguments, path) \
  int function declaration { \
    REAL(function) \
    if (relevant(path) && event(what, short_name(path), 0)) return -1; \
    return real arguments; \
  }
PATH_CALL("rename", rename, (const char *a, const char *b), (a, b), b)
PATH_CALL("rename", renameat, (int x, const char *a, int y, const char *b), (x, a, y, b), b)
PATH_CALL("link", link, (const char *a, const char *b), (a, b), b)
PATH_CALL("unlink", unlink, (const char *a), (a), a)
PATH_CALL("unlink", unlinkat, (int x, const char *a, int f), (x, a, f), a)
PATH_CALL("truncate", truncate, (const char *a, off_t n), (a, n), a)
PATH_CALL("mkdir", mkdir, (const char *a, mode_t m), (a, m), a)

#define FD_CALL(what, function, declaration, arguments) \
  int function declaration { \
    REAL(function) \
    if (armed && fd >= 3 && fd < 1024 && names[fd][0] && event(what, names[fd], 0)) \
      return -1; \
    return real arguments; \
  }
FD_CALL("ftruncate", ftruncate, (int fd, off_t n), (fd, n))
FD_CALL("fsync", fsync, (int fd), (fd))
FD_CALL("fdatasync", fdatasync, (int fd), (fd))
