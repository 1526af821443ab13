#include "vf.h"
#include <cstring>
#include <fstream>
namespace vf_io {
static File files[8];
static int nfiles = 0;
const File *find(const char *path) {
  for (int i = 0; i < nfiles; i++)
    if (!std::strcmp(files[i].path, path)) return &files[i];
  return nullptr;
}
} // namespace vf_io
extern "C" const char *vf_file(const char *name, const char *data, size_t n) {
  using namespace vf_io;
  char *d = new char[n + 1], *p = new char[std::strlen(name) + 1];
  std::memcpy(d, data, n);
  std::strcpy(p, name);
  for (int i = 0; i < nfiles; i++)
    if (!std::strcmp(files[i].path, name)) { files[i] = File{p, d, n}; return p; }
  files[nfiles++] = File{p, d, n};
  return p;
}
namespace std {
void ifstream::open(const char *p, openmode m) {
  const vf_io::File *f = f_ ? nullptr : vf_io::find(p);
  if (!f) { st_ = st_ | failbit; return; }
  f_ = f;
  pos_ = (m & ate) ? f->n : 0;
  st_ = goodbit;
}
ifstream &ifstream::getline(char *s, std::streamsize n, char delim) {
  gc_ = 0;
  if (sentry()) {
    for (;;) {
      if (at_end()) { if (gc_ + 1 < n || 1) st_ = st_ | eofbit; break; }
      const char c = f_->data[pos_];
      if (!(gc_ + 1 < n)) {
        if (c == delim) { gc_++; pos_++; } else st_ = st_ | failbit;
        break;
      }
      if (c == delim) { gc_++; pos_++; break; }
      *s++ = c;
      gc_++;
      pos_++;
    }
  }
  if (n > 0) *s = 0;
  if (!gc_) st_ = st_ | failbit;
  return *this;
}
int ifstream::get() {
  gc_ = 0;
  if (!sentry()) return -1;
  if (at_end()) { st_ = st_ | eofbit | failbit; return -1; }
  gc_ = 1;
  return (unsigned char)f_->data[pos_++];
}
int ifstream::peek() {
  gc_ = 0;
  if (!sentry()) return -1;
  if (at_end()) { st_ = st_ | eofbit; return -1; }
  return (unsigned char)f_->data[pos_];
}
ifstream &ifstream::read(char *s, std::streamsize n) {
  gc_ = 0;
  if (!sentry()) return *this;
  while (gc_ < n && !at_end()) { s[gc_++] = f_->data[pos_++]; }
  if (gc_ != n) st_ = st_ | eofbit | failbit;
  return *this;
}
ifstream &ifstream::ignore(std::streamsize n, int delim) {
  gc_ = 0;
  if (!sentry()) return *this;
  while (gc_ < n) {
    if (at_end()) { st_ = st_ | eofbit; break; }
    const int c = (unsigned char)f_->data[pos_++];
    gc_++;
    if (c == delim) break;
  }
  return *this;
}
ifstream &ifstream::unget() {
  gc_ = 0;
  st_ = iostate(st_ & ~eofbit);
  if (!sentry()) return *this;
  if (!pos_) st_ = st_ | badbit; else pos_--;
  return *this;
}
ifstream &ifstream::seekg(pos_type p) noexcept {
  st_ = iostate(st_ & ~eofbit);
  if (fail()) return *this;
  const off_type o = p;
  if (!f_ || o < 0) st_ = st_ | failbit; else pos_ = (size_t)o;
  return *this;
}
ifstream &ifstream::seekg(off_type o, seekdir d) noexcept {
  st_ = iostate(st_ & ~eofbit);
  if (fail()) return *this;
  off_type b = d == beg ? 0 : d == cur ? (off_type)pos_ : f_ ? (off_type)f_->n : 0;
  if (!f_ || b + o < 0) st_ = st_ | failbit; else pos_ = (size_t)(b + o);
  return *this;
}
ifstream &getline(ifstream &i, std::string &s, char delim) {
  i.gc_ = 0;
  s.clear();
  bool any = false;
  if (i.sentry()) {
    for (;;) {
      if (i.at_end()) { i.st_ = i.st_ | ifstream::eofbit; break; }
      const char c = i.f_->data[i.pos_++];
      any = true;
      if (c == delim) break;
      s.push_back(c);
    }
  }
  if (!any) i.st_ = i.st_ | ifstream::failbit;
  return i;
}
} // namespace std
