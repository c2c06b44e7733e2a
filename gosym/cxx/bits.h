// A small C++ standard library for symbolic execution. Its lowest level is the rtcg_* functions, which the executor provides.
#ifndef RTCG_BITS
#define RTCG_BITS

extern "C" {
#include <stddef.h>
#include <stdint.h>
void *memcpy(void *, const void *, size_t) noexcept;
void *memmove(void *, const void *, size_t) noexcept;
void *memset(void *, int, size_t) noexcept;
int memcmp(const void *, const void *, size_t) noexcept;
void abort() noexcept __attribute__((noreturn));
size_t strlen(const char *) noexcept;
int rtcg_getc();                                // the next byte of standard input, or -1
int rtcg_peekc();                               // the same, without taking it
void rtcg_write(int fd, const char *s, size_t); // writes bytes
void rtcg_number(int fd, long n, int isUnsigned); // writes a number
}

inline void *operator new(size_t, void *p) noexcept { return p; }
inline void *operator new[](size_t, void *p) noexcept { return p; }

namespace std
{
using ::size_t;
using ::ptrdiff_t;
typedef decltype(nullptr) nullptr_t;

template <class T> struct remove_reference { typedef T type; };
template <class T> struct remove_reference<T &> { typedef T type; };
template <class T> struct remove_reference<T &&> { typedef T type; };
template <class T> struct remove_const { typedef T type; };
template <class T> struct remove_const<const T> { typedef T type; };

template <class T> constexpr typename remove_reference<T>::type &&move(T &&t) noexcept { return static_cast<typename remove_reference<T>::type &&>(t); }
template <class T> constexpr T &&forward(typename remove_reference<T>::type &t) noexcept { return static_cast<T &&>(t); }
template <class T> void swap(T &a, T &b) { T c(move(a)); a = move(b); b = move(c); }
template <class T> const T &min(const T &a, const T &b) { return b < a ? b : a; }
template <class T> const T &max(const T &a, const T &b) { return a < b ? b : a; }

template <class A, class B> struct pair
{
  A first;
  B second;
  pair() : first(), second() {}
  pair(const A &a, const B &b) : first(a), second(b) {}
};
template <class A, class B> pair<A, B> make_pair(A a, B b) { return pair<A, B>(a, b); }

template <class E> class initializer_list
{
  const E *p_;
  size_t n_;

public:
  typedef E value_type;
  typedef const E *iterator;
  initializer_list() noexcept : p_(nullptr), n_(0) {}
  initializer_list(const E *p, size_t n) noexcept : p_(p), n_(n) {}
  size_t size() const noexcept { return n_; }
  const E *begin() const noexcept { return p_; }
  const E *end() const noexcept { return p_ + n_; }
};

class string
{
  char *d_;
  size_t n_;

  void set(const char *s, size_t n)
  {
    d_ = new char[n + 1];
    if (n) memcpy(d_, s, n);
    d_[n] = 0;
    n_ = n;
  }

public:
  typedef size_t size_type;
  typedef char value_type;
  typedef char *iterator;
  typedef const char *const_iterator;
  static const size_t npos = static_cast<size_t>(-1);

  string() { set("", 0); }
  string(const char *s) { set(s, strlen(s)); }
  string(const char *s, size_t n) { set(s, n); }
  string(int n, char c) { set("", 0); while (n-- > 0) push_back(c); }
  string(size_t n, char c) { set("", 0); while (n--) push_back(c); }
  string(const string &o) { set(o.d_, o.n_); }
  string(const string &o, size_t pos, size_t n = npos) { if (pos > o.n_) abort(); size_t r = o.n_ - pos; set(o.d_ + pos, n < r ? n : r); }
  template <class I> string(I i, I e) { set("", 0); while (i != e) push_back(*i++); }
  string(initializer_list<char> l) { set(l.begin(), l.size()); }
  string(string &&o) noexcept { d_ = o.d_; n_ = o.n_; o.set("", 0); }
  ~string() { delete[] d_; }

  string &operator=(const string &o) { if (this != &o) { char *old = d_; set(o.d_, o.n_); delete[] old; } return *this; }
  string &operator=(const char *s) { char *old = d_; set(s, strlen(s)); delete[] old; return *this; }
  string &operator=(char c) { char *old = d_; set(&c, 1); delete[] old; return *this; }

  const char *c_str() const noexcept { return d_; }
  const char *data() const noexcept { return d_; }
  size_t size() const noexcept { return n_; }
  size_t length() const noexcept { return n_; }
  bool empty() const noexcept { return n_ == 0; }
  void clear() { *this = ""; }
  char &operator[](size_t i) { return d_[i]; }
  const char &operator[](size_t i) const { return d_[i]; }
  char &at(size_t i) { return d_[i]; }
  const char &at(size_t i) const { return d_[i]; }
  char &front() { return d_[0]; }
  char &back() { return d_[n_ - 1]; }
  const char &front() const { return d_[0]; }
  const char &back() const { return d_[n_ - 1]; }
  const char *cbegin() const { return d_; }
  const char *cend() const { return d_ + n_; }
  size_t capacity() const { return n_; }
  void reserve(size_t = 0) {}
  void swap(string &o) noexcept { std::swap(d_, o.d_); std::swap(n_, o.n_); }
  void pop_back() { d_[--n_] = 0; }
  void resize(size_t n, char c = 0) { while (n_ < n) push_back(c); n_ = n; d_[n] = 0; }
  string &erase(size_t pos = 0, size_t n = npos)
  {
    if (pos > n_) abort();
    if (n > n_ - pos) n = n_ - pos;
    memmove(d_ + pos, d_ + pos + n, n_ - pos - n + 1);
    n_ -= n;
    return *this;
  }
  template <class I, class = decltype(*I())> iterator erase(I i) { size_t k = i - d_; erase(k, 1); return d_ + k; }
  template <class I, class J, class = decltype(*I())> iterator erase(I i, J e) { size_t k = i - d_; erase(k, e - i); return d_ + k; }
  string &insert(size_t pos, const string &s)
  {
    if (pos > n_) abort();
    string r(d_, pos);
    r.append(s);
    r.append(d_ + pos, n_ - pos);
    swap(r);
    return *this;
  }
  template <class I, class = decltype(*I())> iterator insert(I i, char c) { size_t k = i - d_; insert(k, string(&c, 1)); return d_ + k; }
  string &replace(size_t pos, size_t n, const string &s) { erase(pos, n); return insert(pos, s); }
  char *begin() { return d_; }
  char *end() { return d_ + n_; }
  const char *begin() const { return d_; }
  const char *end() const { return d_ + n_; }

  string &append(const char *s, size_t n)
  {
    char *d = new char[n_ + n + 1];
    memcpy(d, d_, n_);
    if (n) memcpy(d + n_, s, n);
    d[n_ + n] = 0;
    delete[] d_;
    d_ = d;
    n_ += n;
    return *this;
  }
  string &append(const char *s) { return append(s, strlen(s)); }
  string &append(const string &s) { return append(s.d_, s.n_); }
  string &append(size_t n, char c) { while (n--) push_back(c); return *this; }
  template <class I> string &append(I i, I e) { while (i != e) push_back(*i++); return *this; }
  string &assign(const char *s, size_t n) { return *this = string(s, n); }
  void push_back(char c) { append(&c, 1); }
  string &operator+=(const string &s) { return append(s); }
  string &operator+=(const char *s) { return append(s); }
  string &operator+=(char c) { push_back(c); return *this; }
  string &assign(const string &s) { return *this = s; }
  string &assign(const char *s) { return *this = s; }

  int compare(const char *s, size_t n) const
  {
    int r = memcmp(d_, s, n_ < n ? n_ : n);
    if (r) return r;
    return n_ < n ? -1 : n_ > n ? 1 : 0;
  }
  int compare(const char *s) const { return compare(s, strlen(s)); }
  int compare(const string &o) const { return compare(o.d_, o.n_); }
  int compare(size_t pos, size_t n, const char *s, size_t k) const { return substr(pos, n).compare(s, k); }
  int compare(size_t pos, size_t n, const string &o) const { return substr(pos, n).compare(o); }

  string substr(size_t pos = 0, size_t n = npos) const { return string(*this, pos, n); }
  size_t find(const char *s, size_t pos = 0) const
  {
    size_t k = strlen(s);
    for (size_t i = pos; i + k <= n_; i++)
      if (memcmp(d_ + i, s, k) == 0) return i;
    return npos;
  }
  size_t find(const string &s, size_t pos = 0) const { return find(s.c_str(), pos); }
  size_t find(char c, size_t pos = 0) const
  {
    for (size_t i = pos; i < n_; i++)
      if (d_[i] == c) return i;
    return npos;
  }
  size_t rfind(const string &s, size_t pos = npos) const
  {
    if (s.n_ > n_) return npos;
    for (size_t i = (pos < n_ - s.n_ ? pos : n_ - s.n_) + 1; i > 0; i--)
      if (memcmp(d_ + i - 1, s.d_, s.n_) == 0) return i - 1;
    return npos;
  }
  size_t rfind(const char *s, size_t pos = npos) const { return rfind(string(s), pos); }
  size_t rfind(char c, size_t pos = npos) const { return rfind(string(&c, 1), pos); }
  size_t first(const string &set, size_t pos, bool want) const
  {
    for (size_t i = pos; i < n_; i++)
      if ((set.find(d_[i]) != npos) == want) return i;
    return npos;
  }
  size_t last(const string &set, size_t pos, bool want) const
  {
    for (size_t i = pos < n_ ? pos + 1 : n_; i > 0; i--)
      if ((set.find(d_[i - 1]) != npos) == want) return i - 1;
    return npos;
  }
  size_t find_first_of(const string &set, size_t pos = 0) const { return first(set, pos, true); }
  size_t find_first_not_of(const string &set, size_t pos = 0) const { return first(set, pos, false); }
  size_t find_last_of(const string &set, size_t pos = npos) const { return last(set, pos, true); }
  size_t find_last_not_of(const string &set, size_t pos = npos) const { return last(set, pos, false); }
  size_t find_first_of(char c, size_t pos = 0) const { return find(c, pos); }
  size_t find_first_not_of(char c, size_t pos = 0) const { return first(string(&c, 1), pos, false); }
  size_t find_last_of(char c, size_t pos = npos) const { return last(string(&c, 1), pos, true); }
  size_t find_last_not_of(char c, size_t pos = npos) const { return last(string(&c, 1), pos, false); }
};

inline bool operator==(const string &a, const string &b) { return a.size() == b.size() && memcmp(a.data(), b.data(), a.size()) == 0; }
inline bool operator==(const string &a, const char *b) { size_t n = strlen(b); return a.size() == n && memcmp(a.data(), b, n) == 0; }
inline bool operator==(const char *a, const string &b) { return b == a; }
inline bool operator!=(const string &a, const string &b) { return !(a == b); }
inline bool operator!=(const string &a, const char *b) { return !(a == b); }
inline bool operator!=(const char *a, const string &b) { return !(b == a); }
inline bool operator<(const string &a, const string &b) { return a.compare(b) < 0; }
inline bool operator>(const string &a, const string &b) { return a.compare(b) > 0; }
inline bool operator<=(const string &a, const string &b) { return a.compare(b) <= 0; }
inline bool operator>=(const string &a, const string &b) { return a.compare(b) >= 0; }
inline string operator+(const string &a, const string &b) { string c(a); c += b; return c; }
inline string operator+(const string &a, const char *b) { string c(a); c += b; return c; }
inline string operator+(const char *a, const string &b) { string c(a); c += b; return c; }
inline string operator+(char a, const string &b) { string c(1, a); c += b; return c; }
inline string operator+(const string &a, char b) { string c(a); c += b; return c; }

inline string to_string(unsigned long n)
{
  char b[24];
  int i = 24;
  do { b[--i] = static_cast<char>('0' + n % 10); n /= 10; } while (n);
  return string(b + i, 24 - i);
}
inline string to_string(long n) { return n < 0 ? "-" + to_string(0ul - static_cast<unsigned long>(n)) : to_string(static_cast<unsigned long>(n)); }
inline string to_string(int n) { return to_string(static_cast<long>(n)); }
inline string to_string(unsigned n) { return to_string(static_cast<unsigned long>(n)); }
inline string to_string(long long n) { return to_string(static_cast<long>(n)); }
inline string to_string(unsigned long long n) { return to_string(static_cast<unsigned long>(n)); }

// What is not a number ends the program, as an exception would.
inline long stol(const string &s, size_t *pos, int base, long lo, long hi)
{
  size_t i = 0;
  while (i < s.size() && (s[i] == ' ' || (s[i] >= 9 && s[i] <= 13))) i++;
  bool neg = false, any = false;
  if (i < s.size() && (s[i] == '-' || s[i] == '+')) neg = s[i++] == '-';
  long v = 0;
  for (; i < s.size(); i++)
  {
    int c = s[i], d;
    if (c >= '0' && c <= '9') d = c - '0';
    else if ((c | 32) >= 'a' && (c | 32) <= 'z') d = (c | 32) - 'a' + 10;
    else break;
    if (d >= base) break;
    if (v > 1l << 56) abort();
    v = v * base + d;
    any = true;
  }
  if (!any) abort();
  if (neg) v = -v;
  if (v < lo || v > hi) abort();
  if (pos) *pos = i;
  return v;
}
inline int stoi(const string &s, size_t *pos = nullptr, int base = 10) { return static_cast<int>(stol(s, pos, base, -2147483647l - 1, 2147483647l)); }
inline long stol(const string &s, size_t *pos = nullptr, int base = 10) { return stol(s, pos, base, -(1l << 62), 1l << 62); }
inline long long stoll(const string &s, size_t *pos = nullptr, int base = 10) { return stol(s, pos, base); }
inline unsigned long stoul(const string &s, size_t *pos = nullptr, int base = 10) { return static_cast<unsigned long>(stol(s, pos, base)); }
inline unsigned long long stoull(const string &s, size_t *pos = nullptr, int base = 10) { return stoul(s, pos, base); }

class ostream
{
  int fd_;

public:
  explicit ostream(int fd) : fd_(fd) {}
  virtual ~ostream() {}
  ostream(const ostream &) = delete;
  virtual ostream &write(const char *s, size_t n) { rtcg_write(fd_, s, n); return *this; }
  virtual void number(long n, int u) { rtcg_number(fd_, n, u); }
  ostream &put(char c) { return write(&c, 1); }
  ostream &flush() { return *this; }
  explicit operator bool() const { return true; }
  bool operator!() const { return false; }
  ostream &operator<<(bool b) { return write(b ? "1" : "0", 1); }
  ostream &operator<<(short n) { number(n, 0); return *this; }
  ostream &operator<<(unsigned short n) { number(n, 1); return *this; }
  ostream &operator<<(int n) { number(n, 0); return *this; }
  ostream &operator<<(unsigned n) { number(n, 1); return *this; }
  ostream &operator<<(long n) { number(n, 0); return *this; }
  ostream &operator<<(unsigned long n) { number(static_cast<long>(n), 1); return *this; }
  ostream &operator<<(long long n) { number(n, 0); return *this; }
  ostream &operator<<(unsigned long long n) { number(static_cast<long>(n), 1); return *this; }
  ostream &operator<<(double) { return write("~", 1); }
  ostream &operator<<(float) { return write("~", 1); }
  ostream &operator<<(const void *p) { return write(p ? "0x1" : "0", p ? 3 : 1); }
  ostream &operator<<(ostream &(*f)(ostream &)) { return f(*this); }
};
inline ostream &operator<<(ostream &o, const char *s) { return o.write(s, strlen(s)); }
inline ostream &operator<<(ostream &o, char c) { return o.put(c); }
inline ostream &operator<<(ostream &o, signed char c) { return o.put(static_cast<char>(c)); }
inline ostream &operator<<(ostream &o, unsigned char c) { return o.put(static_cast<char>(c)); }
inline ostream &operator<<(ostream &o, const string &s) { return o.write(s.data(), s.size()); }
inline ostream &endl(ostream &o) { return o.put('\n'); }
inline ostream &flush(ostream &o) { return o; }

class ostringstream : public ostream
{
  string s_;

public:
  ostringstream() : ostream(0) {}
  explicit ostringstream(const string &) : ostream(0) {}
  ostream &write(const char *s, size_t n) override { s_.append(s, n); return *this; }
  void number(long n, int u) override { s_ += u ? to_string(static_cast<unsigned long>(n)) : to_string(n); }
  string str() const { return s_; }
  void str(const string &s) { s_ = s; }
};

class istream
{
  bool fail_ = false;
  bool eof_ = false;

  virtual int getc_() { return rtcg_getc(); }
  virtual int peekc_() { return rtcg_peekc(); }
  static bool blank(int c) { return c == ' ' || c == '\n' || c == '\t' || c == '\r' || c == '\v' || c == '\f'; }
  bool skip()
  {
    if (fail_) return false;
    if (eof_) { fail_ = true; return false; }
    while (blank(peekc_())) getc_();
    if (peekc_() < 0) { eof_ = fail_ = true; return false; }
    return true;
  }
  // Reads a number between lo and hi; libraries take negative ones as unsigned by wrapping them.
  bool number(long &v, long lo, long hi, bool wraps)
  {
    v = 0;
    if (!skip()) return false;
    bool neg = false, any = false, big = false;
    int c = peekc_();
    if (c == '-' || c == '+') { neg = c == '-'; getc_(); c = peekc_(); }
    while (c >= '0' && c <= '9')
    {
      any = true;
      v = v * 10 + (c - '0');
      if (v > 1l << 40) big = true;
      if (big) v = 1l << 40;
      getc_();
      c = peekc_();
    }
    if (c < 0) eof_ = true;
    if (!any) { v = 0; fail_ = true; return true; }
    if (neg && !wraps) v = -v;
    if (v < lo) { v = lo; fail_ = true; }
    else if (v > hi) { v = hi; fail_ = true; }
    else if (neg && wraps) v = -v;
    return true;
  }

public:
  istream() {}
  virtual ~istream() {}
  istream(const istream &) = delete;
  explicit operator bool() const { return !fail_; }
  bool operator!() const { return fail_; }
  bool good() const { return !fail_ && !eof_; }
  bool fail() const { return fail_; }
  bool bad() const { return false; }
  bool eof() const { return eof_; }
  void clear() { fail_ = eof_ = false; }
  int get()
  {
    int c = getc_();
    if (c < 0) eof_ = fail_ = true;
    return c;
  }
  istream &get(char &ch)
  {
    int c = get();
    if (c >= 0) ch = static_cast<char>(c);
    return *this;
  }
  void setstate(int s) { if (s & 1) eof_ = true; if (s & 2) fail_ = true; }
  static const int goodbit = 0, eofbit = 1, failbit = 2;
  void renew() { fail_ = eof_ = false; }
  int peek() { return peekc_(); }
  istream &ignore(long n = 1, int stop = -1)
  {
    while (n-- > 0) { int c = getc_(); if (c < 0 || c == stop) break; }
    return *this;
  }
  istream &operator>>(string &s)
  {
    if (!skip()) return *this;
    s.clear();
    int c = peekc_();
    while (c >= 0 && !blank(c)) { s.push_back(static_cast<char>(c)); getc_(); c = peekc_(); }
    if (c < 0) eof_ = true;
    return *this;
  }
  istream &operator>>(char &ch)
  {
    if (skip()) ch = static_cast<char>(getc_());
    return *this;
  }
  istream &operator>>(int &n) { long v; if (number(v, -2147483647l - 1, 2147483647l, false)) n = static_cast<int>(v); return *this; }
  istream &operator>>(unsigned &n) { long v; if (number(v, 0, 4294967295l, true)) n = static_cast<unsigned>(v); return *this; }
  istream &operator>>(long &n) { long v; if (number(v, -(1l << 40), 1l << 40, false)) n = v; return *this; }
  istream &operator>>(unsigned long &n) { long v; if (number(v, 0, 1l << 40, true)) n = static_cast<unsigned long>(v); return *this; }
  istream &operator>>(double &);
  istream &operator>>(float &);
  istream &operator>>(void *&p);
  istream &operator>>(istream &(*f)(istream &)) { return f(*this); }
  istream &blanks() { while (!fail_ && blank(peekc_())) getc_(); if (peekc_() < 0) eof_ = true; return *this; }
  istream &line(string &s, char end = '\n')
  {
    s.clear();
    if (fail_) return *this;
    int c = getc_();
    if (c < 0) { eof_ = fail_ = true; return *this; }
    while (c >= 0 && c != static_cast<unsigned char>(end)) { s.push_back(static_cast<char>(c)); c = getc_(); }
    if (c < 0) eof_ = true;
    return *this;
  }
};
inline istream &getline(istream &i, string &s) { return i.line(s); }
inline istream &getline(istream &i, string &s, char end) { return i.line(s, end); }
inline istream &ws(istream &i) { return i.blanks(); }

class istringstream : public istream
{
  string s_;
  size_t i_ = 0;
  int getc_() override { return i_ < s_.size() ? static_cast<unsigned char>(s_[i_++]) : -1; }
  int peekc_() override { return i_ < s_.size() ? static_cast<unsigned char>(s_[i_]) : -1; }

public:
  istringstream() {}
  explicit istringstream(const string &s) : s_(s) {}
  string str() const { return s_; }
  void str(const string &s) { s_ = s; i_ = 0; }
};

class stringstream : public istream, public ostream
{
  string s_;
  size_t i_ = 0;
  int getc_() override { return i_ < s_.size() ? static_cast<unsigned char>(s_[i_++]) : -1; }
  int peekc_() override { return i_ < s_.size() ? static_cast<unsigned char>(s_[i_]) : -1; }

public:
  stringstream() : ostream(0) {}
  explicit stringstream(const string &s) : ostream(0), s_(s) {}
  ostream &write(const char *s, size_t n) override { s_.append(s, n); return *this; }
  void number(long n, int u) override { s_ += u ? to_string(static_cast<unsigned long>(n)) : to_string(n); }
  string str() const { return s_; }
  void str(const string &s) { s_ = s; i_ = 0; }
  explicit operator bool() const { return istream::operator bool(); }
  bool operator!() const { return !istream::operator bool(); }
};

template <class T> class vector
{
  T *d_ = nullptr;
  size_t n_ = 0, cap_ = 0;

  void grow()
  {
    if (n_ < cap_) return;
    size_t c = cap_ ? 2 * cap_ : 4;
    T *d = static_cast<T *>(::operator new(c * sizeof(T)));
    for (size_t i = 0; i < n_; i++) { new (d + i) T(d_[i]); d_[i].~T(); }
    ::operator delete(d_);
    d_ = d;
    cap_ = c;
  }

public:
  vector() {}
  vector(const vector &o) { for (const T &t : o) push_back(t); }
  vector &operator=(const vector &o) { if (this != &o) { clear(); for (const T &t : o) push_back(t); } return *this; }
  vector(initializer_list<T> l) { for (const T &t : l) push_back(t); }
  vector(vector &&o) noexcept : d_(o.d_), n_(o.n_), cap_(o.cap_) { o.d_ = nullptr; o.n_ = o.cap_ = 0; }
  explicit vector(size_t n, const T &t = T()) { while (n--) push_back(t); }
  vector &operator=(vector &&o) noexcept { swap(o); return *this; }
  void swap(vector &o) noexcept { std::swap(d_, o.d_); std::swap(n_, o.n_); std::swap(cap_, o.cap_); }
  typedef T value_type;
  typedef T *iterator;
  typedef const T *const_iterator;
  template <class... A> void emplace_back(A &&...a) { push_back(T(forward<A>(a)...)); }
  void reserve(size_t) {}
  template <class I> vector(I i, I e) { while (i != e) push_back(*i++); }
  vector(int n, const T &t) { while (n-- > 0) push_back(t); }
  void resize(size_t n) { while (n_ > n) pop_back(); while (n_ < n) push_back(T()); }
  T *data() { return d_; }
  const T *data() const { return d_; }
  iterator erase(iterator i, iterator e) { while (e != i) erase(--e); return i; }
  T &at(size_t i) { if (i >= n_) __builtin_trap(); return d_[i]; }
  const T &at(size_t i) const { if (i >= n_) __builtin_trap(); return d_[i]; }
  const T &back() const { return d_[n_ - 1]; }
  const T &front() const { return d_[0]; }
  const T *cbegin() const { return d_; }
  const T *cend() const { return d_ + n_; }
  iterator insert(iterator at, const T &t)
  {
    size_t k = at - d_;
    push_back(t);
    for (size_t i = n_ - 1; i > k; i--) std::swap(d_[i], d_[i - 1]);
    return d_ + k;
  }
  iterator erase(iterator at)
  {
    for (iterator i = at; i + 1 != d_ + n_; ++i) std::swap(*i, *(i + 1));
    pop_back();
    return at;
  }
  ~vector() { clear(); ::operator delete(d_); }
  void push_back(const T &t) { grow(); new (d_ + n_) T(t); n_++; }
  void clear() { while (n_) d_[--n_].~T(); }
  void pop_back() { d_[--n_].~T(); }
  size_t size() const { return n_; }
  bool empty() const { return !n_; }
  T &operator[](size_t i) { return d_[i]; }
  const T &operator[](size_t i) const { return d_[i]; }
  T &back() { return d_[n_ - 1]; }
  T &front() { return d_[0]; }
  T *begin() { return d_; }
  T *end() { return d_ + n_; }
  const T *begin() const { return d_; }
  const T *end() const { return d_ + n_; }
};

template <class T> class shared_ptr
{
  T *p_ = nullptr;
  long *c_ = nullptr;
  template <class U> friend class shared_ptr;
  void drop() { if (c_ && --*c_ == 0) { delete p_; delete c_; } }

public:
  shared_ptr() {}
  shared_ptr(nullptr_t) {}
  explicit shared_ptr(T *p) : p_(p), c_(new long(1)) {}
  shared_ptr(const shared_ptr &o) : p_(o.p_), c_(o.c_) { if (c_) ++*c_; }
  template <class U> shared_ptr(const shared_ptr<U> &o) : p_(o.p_), c_(o.c_) { if (c_) ++*c_; }
  shared_ptr &operator=(const shared_ptr &o) { if (o.c_) ++*o.c_; drop(); p_ = o.p_; c_ = o.c_; return *this; }
  ~shared_ptr() { drop(); }
  T *get() const { return p_; }
  T &operator*() const { return *p_; }
  T *operator->() const { return p_; }
  explicit operator bool() const { return p_; }
};

template <class T> class unique_ptr
{
  T *p_ = nullptr;

public:
  unique_ptr() {}
  explicit unique_ptr(T *p) : p_(p) {}
  unique_ptr(unique_ptr &&o) : p_(o.p_) { o.p_ = nullptr; }
  unique_ptr(const unique_ptr &) = delete;
  ~unique_ptr() { delete p_; }
  T *get() const { return p_; }
  T &operator*() const { return *p_; }
  T *operator->() const { return p_; }
};

template <class T, class... A> shared_ptr<T> make_shared(A &&...a) { return shared_ptr<T>(new T(forward<A>(a)...)); }

template <class T> struct less { bool operator()(const T &a, const T &b) const { return a < b; } };
template <class T> struct hash {};
template <class T> struct equal_to { bool operator()(const T &a, const T &b) const { return a == b; } };

// Maps and sets are sorted vectors.
template <class K, class V, class C = less<K>> class map
{
  vector<pair<K, V>> v_;

  pair<K, V> *bound(const K &k)
  {
    pair<K, V> *i = v_.begin();
    while (i != v_.end() && C()(i->first, k)) ++i;
    return i;
  }

public:
  typedef pair<K, V> value_type;
  typedef pair<K, V> *iterator;
  typedef const pair<K, V> *const_iterator;
  map() {}
  map(initializer_list<pair<K, V>> l) { for (const pair<K, V> &p : l) insert(p); }
  iterator begin() { return v_.begin(); }
  iterator end() { return v_.end(); }
  const_iterator begin() const { return v_.begin(); }
  const_iterator end() const { return v_.end(); }
  size_t size() const { return v_.size(); }
  bool empty() const { return v_.empty(); }
  void clear() { v_.clear(); }
  iterator find(const K &k)
  {
    iterator i = bound(k);
    return i != end() && !C()(k, i->first) ? i : end();
  }
  const_iterator find(const K &k) const { return const_cast<map *>(this)->find(k); }
  size_t count(const K &k) const { return find(k) != end(); }
  pair<iterator, bool> insert(const pair<K, V> &p)
  {
    iterator i = bound(p.first);
    if (i != end() && !C()(p.first, i->first)) return pair<iterator, bool>(i, false);
    return pair<iterator, bool>(v_.insert(i, p), true);
  }
  template <class A, class B> pair<iterator, bool> emplace(A a, B b) { return insert(pair<K, V>(a, b)); }
  iterator lower_bound(const K &k) { return bound(k); }
  V &operator[](const K &k) { return insert(pair<K, V>(k, V())).first->second; }
  V &at(const K &k) { iterator i = find(k); if (i == end()) __builtin_trap(); return i->second; }
  const V &at(const K &k) const { return const_cast<map *>(this)->at(k); }
  size_t erase(const K &k)
  {
    iterator i = find(k);
    if (i == end()) return 0;
    v_.erase(i);
    return 1;
  }
};

template <class K, class C = less<K>> class set
{
  vector<K> v_;

public:
  typedef K value_type;
  typedef const K *iterator;
  typedef const K *const_iterator;
  set() {}
  set(initializer_list<K> l) { for (const K &k : l) insert(k); }
  const_iterator begin() const { return v_.begin(); }
  const_iterator end() const { return v_.end(); }
  size_t size() const { return v_.size(); }
  bool empty() const { return v_.empty(); }
  void clear() { v_.clear(); }
  const_iterator find(const K &k) const
  {
    for (const_iterator i = begin(); i != end(); ++i)
      if (!C()(*i, k) && !C()(k, *i)) return i;
    return end();
  }
  size_t count(const K &k) const { return find(k) != end(); }
  pair<iterator, bool> insert(const K &k)
  {
    K *i = v_.begin();
    while (i != v_.end() && C()(*i, k)) ++i;
    if (i != v_.end() && !C()(k, *i)) return pair<iterator, bool>(i, false);
    return pair<iterator, bool>(v_.insert(i, k), true);
  }
  size_t erase(const K &k)
  {
    for (K *i = v_.begin(); i != v_.end(); ++i)
      if (!C()(*i, k) && !C()(k, *i)) { v_.erase(i); return 1; }
    return 0;
  }
};

template <class T, size_t N> struct array
{
  T d_[N];
  size_t size() const { return N; }
  T &operator[](size_t i) { return d_[i]; }
  const T &operator[](size_t i) const { return d_[i]; }
  T *begin() { return d_; }
  T *end() { return d_ + N; }
  const T *begin() const { return d_; }
  const T *end() const { return d_ + N; }
};

template <class F> class function;
template <class R, class... A> class function<R(A...)>
{
  struct Base
  {
    virtual ~Base() {}
    virtual R call(A... a) = 0;
    virtual Base *copy() const = 0;
  };
  template <class F> struct Of : Base
  {
    F f;
    explicit Of(const F &g) : f(g) {}
    R call(A... a) override { return f(forward<A>(a)...); }
    Base *copy() const override { return new Of(f); }
  };
  Base *b_ = nullptr;

public:
  function() {}
  function(nullptr_t) {}
  template <class F> function(F f) : b_(new Of<F>(f)) {}
  function(const function &o) : b_(o.b_ ? o.b_->copy() : nullptr) {}
  function &operator=(const function &o) { Base *n = o.b_ ? o.b_->copy() : nullptr; delete b_; b_ = n; return *this; }
  ~function() { delete b_; }
  explicit operator bool() const { return b_; }
  R operator()(A... a) const { return b_->call(forward<A>(a)...); }
};

template <class I, class T> I find(I i, I e, const T &t) { while (i != e && !(*i == t)) ++i; return i; }
template <class I, class P> I find_if(I i, I e, P p) { while (i != e && !p(*i)) ++i; return i; }
template <class I, class P> bool any_of(I i, I e, P p) { return find_if(i, e, p) != e; }
template <class I, class P> bool all_of(I i, I e, P p) { while (i != e) if (!p(*i++)) return false; return true; }
template <class I, class P> bool none_of(I i, I e, P p) { return !any_of(i, e, p); }
template <class I, class P> I find_if_not(I i, I e, P p) { while (i != e && p(*i)) ++i; return i; }
template <class I, class T> ptrdiff_t count(I i, I e, const T &t) { ptrdiff_t n = 0; for (; i != e; ++i) if (*i == t) n++; return n; }
template <class I, class P> ptrdiff_t count_if(I i, I e, P p) { ptrdiff_t n = 0; for (; i != e; ++i) if (p(*i)) n++; return n; }
template <class I, class J> bool equal(I i, I e, J j) { for (; i != e; ++i, ++j) if (!(*i == *j)) return false; return true; }
template <class I, class J, class P> bool equal(I i, I e, J j, P p) { for (; i != e; ++i, ++j) if (!p(*i, *j)) return false; return true; }
template <class I, class J> bool lexicographical_compare(I i, I e, J j, J f)
{
  for (; i != e && j != f; ++i, ++j)
  {
    if (*i < *j) return true;
    if (*j < *i) return false;
  }
  return i == e && j != f;
}
template <class I, class O> O copy(I i, I e, O o) { while (i != e) *o++ = *i++; return o; }
template <class I, class O, class P> O copy_if(I i, I e, O o, P p) { for (; i != e; ++i) if (p(*i)) *o++ = *i; return o; }
template <class I, class T> void fill(I i, I e, const T &t) { while (i != e) *i++ = t; }
template <class I, class T> void replace(I i, I e, const T &a, const T &b) { for (; i != e; ++i) if (*i == a) *i = b; }
template <class I, class O, class F> O transform(I i, I e, O o, F f) { while (i != e) *o++ = f(*i++); return o; }
template <class I, class J, class O, class F> O transform(I i, I e, J j, O o, F f) { while (i != e) *o++ = f(*i++, *j++); return o; }
template <class I, class P> I remove_if(I i, I e, P p) { I o = i; for (; i != e; ++i) if (!p(*i)) *o++ = move(*i); return o; }
template <class I, class T> I remove(I i, I e, const T &t) { I o = i; for (; i != e; ++i) if (!(*i == t)) *o++ = move(*i); return o; }
template <class I> void reverse(I i, I e) { while (i != e && i != --e) { swap(*i, *e); ++i; } }
template <class I, class C> void sort(I i, I e, C c) { for (I j = i; j != e; ++j) for (I k = j; k != i && c(*k, *(k - 1)); --k) swap(*k, *(k - 1)); }
template <class I> void sort(I i, I e) { for (I j = i; j != e; ++j) for (I k = j; k != i && *k < *(k - 1); --k) swap(*k, *(k - 1)); }
template <class I> I max_element(I i, I e) { I m = i; for (; i != e; ++i) if (*m < *i) m = i; return m; }
template <class I> I min_element(I i, I e) { I m = i; for (; i != e; ++i) if (*i < *m) m = i; return m; }
template <class I, class T> T accumulate(I i, I e, T t) { while (i != e) t = t + *i++; return t; }
template <class I> ptrdiff_t distance(I i, I e) { ptrdiff_t n = 0; for (; i != e; ++i) n++; return n; }
template <class I> I next(I i, ptrdiff_t n = 1) { return i + n; }
template <class I> I prev(I i, ptrdiff_t n = 1) { return i - n; }
template <class I> void advance(I &i, ptrdiff_t n) { i = i + n; }
template <class C> struct back_insert_iterator
{
  C *c_;
  back_insert_iterator &operator*() { return *this; }
  back_insert_iterator &operator++() { return *this; }
  back_insert_iterator &operator++(int) { return *this; }
  template <class T> back_insert_iterator &operator=(const T &t) { c_->push_back(t); return *this; }
};
template <class C> back_insert_iterator<C> back_inserter(C &c) { back_insert_iterator<C> b; b.c_ = &c; return b; }
template <class I, class F> F for_each(I i, I e, F f) { while (i != e) f(*i++); return f; }
template <class C> auto begin(C &c) -> decltype(c.begin()) { return c.begin(); }
template <class C> auto end(C &c) -> decltype(c.end()) { return c.end(); }
template <class T, size_t N> T *begin(T (&a)[N]) { return a; }
template <class T, size_t N> T *end(T (&a)[N]) { return a + N; }

template <class K, class V, class H = hash<K>> using unordered_map = map<K, V>;
template <class K, class H = hash<K>> using unordered_set = set<K>;

static ostream cout(1);
static ostream cerr(2);
static ostream clog(2);
static istream cin;
}

#endif
