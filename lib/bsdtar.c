// A small stand-in for bsdtar (not installed here) with what pkgmk asks of it: create, append, list and extract.
#include <archive.h>
#include <archive_entry.h>
#include <fcntl.h>
#include <locale.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

static int bad;
static char buf[65536];
static void oops(const char *w, const char *m) { fprintf(stderr, "bsdtar: %s: %s\n", w, m ? m : "error"); bad = 1; }

static void copy(struct archive *from, struct archive *to) {
  ssize_t n;
  while ((n = archive_read_data(from, buf, sizeof buf)) > 0)
    if (archive_write_data(to, buf, n) != n) { oops("write", archive_error_string(to)); return; }
  if (n < 0) oops("read", archive_error_string(from));
}

static struct archive *open_read(const char *f) {
  struct archive *a = archive_read_new();
  archive_read_support_filter_all(a);
  archive_read_support_format_all(a);
  archive_read_support_format_empty(a);
  if (archive_read_open_filename(a, f, 65536) != ARCHIVE_OK) { oops(f, archive_error_string(a)); exit(1); }
  return a;
}

int main(int argc, char **argv) {
  setlocale(LC_ALL, "");
  int mode = 0, verbose = 0, i, first = 1;
  const char *file = 0, *dir = 0;
  for (i = 1; i < argc; i++) {
    const char *o = argv[i];
    if (*o == '-') o++;
    else if (!first) break;
    first = 0;
    for (; *o; o++) switch (*o) {
      case 'x': case 'c': case 'r': case 't': mode = *o; break;
      case 'v': verbose = 1; break;
      case 'p': case 'o': break;
      case 'f': case 'C': {
        const char *v = o[1] ? o + 1 : argv[++i];
        if (!v) { fprintf(stderr, "bsdtar: option %c needs an argument\n", *o); return 1; }
        if (*o == 'f') file = v; else dir = v;
        o = "."; break;
      }
      default: fprintf(stderr, "bsdtar: unknown option %c\n", *o); return 1;
    }
  }
  if (!mode || !file) { fprintf(stderr, "bsdtar: no mode or file\n"); return 1; }
  struct archive_entry *e;
  int r;
  if (mode == 't') {
    struct archive *a = open_read(file);
    while ((r = archive_read_next_header(a, &e)) == ARCHIVE_OK || r == ARCHIVE_WARN) printf("%s\n", archive_entry_pathname(e));
    if (r != ARCHIVE_EOF) oops(file, archive_error_string(a));
    return bad;
  }
  if (mode == 'x') {
    struct archive *a = open_read(file), *d = archive_write_disk_new();
    archive_write_disk_set_options(d, ARCHIVE_EXTRACT_TIME | ARCHIVE_EXTRACT_PERM | ARCHIVE_EXTRACT_SECURE_SYMLINKS | ARCHIVE_EXTRACT_SECURE_NODOTDOT);
    if (dir && chdir(dir)) { perror(dir); return 1; }
    while ((r = archive_read_next_header(a, &e)) == ARCHIVE_OK || r == ARCHIVE_WARN) {
      archive_entry_set_uid(e, 0); archive_entry_set_gid(e, 0);
      if (archive_write_header(d, e) != ARCHIVE_OK) { oops(archive_entry_pathname(e), archive_error_string(d)); continue; }
      const void *b; size_t n; la_int64_t off;
      while ((r = archive_read_data_block(a, &b, &n, &off)) == ARCHIVE_OK)
        if (archive_write_data_block(d, b, n, off) < 0) { oops("write", archive_error_string(d)); break; }
      if (r != ARCHIVE_EOF) { oops(file, archive_error_string(a)); if (r == ARCHIVE_FATAL) return 1; }
      archive_write_finish_entry(d);
    }
    if (r != ARCHIVE_EOF) oops(file, archive_error_string(a));
    archive_write_close(d);
    return bad;
  }
  char tmp[4096];
  snprintf(tmp, sizeof tmp, "%s.bsdtar~", file);
  struct archive *w = archive_write_new();
  archive_write_set_format_pax_restricted(w);
  archive_write_set_bytes_per_block(w, 10240);
  if (archive_write_open_filename(w, tmp) != ARCHIVE_OK) { oops(tmp, archive_error_string(w)); return 1; }
  if (mode == 'r' && access(file, F_OK) == 0) {
    struct archive *a = open_read(file);
    while ((r = archive_read_next_header(a, &e)) == ARCHIVE_OK || r == ARCHIVE_WARN) {
      if (archive_filter_count(a) > 1) { oops(file, "cannot append to a compressed archive"); unlink(tmp); return 1; }
      if (archive_write_header(w, e) < ARCHIVE_WARN) oops("write", archive_error_string(w));
      copy(a, w);
    }
    if (r != ARCHIVE_EOF) { oops(file, archive_error_string(a)); unlink(tmp); return 1; }
    archive_read_free(a);
  }
  if (dir && chdir(dir)) { perror(dir); return 1; }
  struct archive_entry_linkresolver *lr = archive_entry_linkresolver_new();
  archive_entry_linkresolver_set_strategy(lr, ARCHIVE_FORMAT_TAR_PAX_RESTRICTED);
  for (; i < argc; i++) {
    struct archive *d = archive_read_disk_new();
    archive_read_disk_set_standard_lookup(d);
    archive_read_disk_set_symlink_physical(d);
    if (archive_read_disk_open(d, argv[i]) != ARCHIVE_OK) { oops(argv[i], archive_error_string(d)); continue; }
    for (;;) {
      struct archive_entry *s;
      e = archive_entry_new();
      r = archive_read_next_header2(d, e);
      if (r == ARCHIVE_EOF) break;
      if (r < ARCHIVE_WARN) { oops(argv[i], archive_error_string(d)); break; }
      archive_read_disk_descend(d);
      archive_entry_linkify(lr, &e, &s);
      if (verbose) fprintf(stderr, "a %s\n", archive_entry_pathname(e));
      if (archive_write_header(w, e) < ARCHIVE_WARN) oops(archive_entry_pathname(e), archive_error_string(w));
      else if (archive_entry_size(e) > 0) {
        int fd = open(archive_entry_sourcepath(e), O_RDONLY);
        ssize_t n;
        if (fd < 0) { perror(archive_entry_sourcepath(e)); bad = 1; }
        else { while ((n = read(fd, buf, sizeof buf)) > 0) archive_write_data(w, buf, n); close(fd); }
      }
      archive_entry_free(e);
    }
    archive_read_free(d);
  }
  if (archive_write_close(w) != ARCHIVE_OK) { oops(file, archive_error_string(w)); unlink(tmp); return 1; }
  if (rename(tmp, file)) { perror(file); return 1; }
  return bad;
}
