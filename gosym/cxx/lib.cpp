// Functions of the C library for symbolic execution: linked to programs that use them.
typedef unsigned long size_t;

extern "C" {
void *malloc(size_t);
void abort();
int rtcg_getc();
void rtcg_write(int, const char *, size_t);

// There are no branches in these.
static int in(int c, int lo, int hi) { return static_cast<unsigned>(c) - lo <= static_cast<unsigned>(hi - lo); }
int isdigit(int c) { return in(c, '0', '9'); }
int isupper(int c) { return in(c, 'A', 'Z'); }
int islower(int c) { return in(c, 'a', 'z'); }
int isalpha(int c) { return in(c | 32, 'a', 'z'); }
int isalnum(int c) { return isalpha(c) | isdigit(c); }
int isxdigit(int c) { return isdigit(c) | in(c | 32, 'a', 'f'); }
int isspace(int c) { return in(c, 9, 13) | in(c, ' ', ' '); }
int isblank(int c) { return in(c, 9, 9) | in(c, ' ', ' '); }
int isprint(int c) { return in(c, 32, 126); }
int isgraph(int c) { return in(c, 33, 126); }
int iscntrl(int c) { return in(c, 0, 31) | in(c, 127, 127); }
int ispunct(int c) { return isgraph(c) & ~isalnum(c); }
int tolower(int c) { return c + (isupper(c) << 5); }
int toupper(int c) { return c - (islower(c) << 5); }

int strncmp(const char *a, const char *b, size_t n)
{
  for (size_t i = 0; i < n; i++)
  {
    if (a[i] != b[i]) return static_cast<unsigned char>(a[i]) < static_cast<unsigned char>(b[i]) ? -1 : 1;
    if (!a[i]) return 0;
  }
  return 0;
}
int strcmp(const char *a, const char *b) { return strncmp(a, b, -1ul); }
int strcoll(const char *a, const char *b) { return strcmp(a, b); }
int strncasecmp(const char *a, const char *b, size_t n)
{
  for (size_t i = 0; i < n; i++)
  {
    int c = tolower(static_cast<unsigned char>(a[i])), d = tolower(static_cast<unsigned char>(b[i]));
    if (c != d) return c < d ? -1 : 1;
    if (!c) return 0;
  }
  return 0;
}
int strcasecmp(const char *a, const char *b) { return strncasecmp(a, b, -1ul); }
size_t strnlen(const char *s, size_t n)
{
  size_t i = 0;
  while (i < n && s[i]) i++;
  return i;
}
char *strcpy(char *d, const char *s)
{
  size_t i = 0;
  do d[i] = s[i]; while (s[i++]);
  return d;
}
char *stpcpy(char *d, const char *s)
{
  while ((*d = *s++)) d++;
  return d;
}
char *strncpy(char *d, const char *s, size_t n)
{
  size_t i = 0;
  for (; i < n && s[i]; i++) d[i] = s[i];
  for (; i < n; i++) d[i] = 0;
  return d;
}
char *strcat(char *d, const char *s)
{
  char *e = d;
  while (*e) e++;
  strcpy(e, s);
  return d;
}
char *strncat(char *d, const char *s, size_t n)
{
  char *e = d;
  while (*e) e++;
  for (; n && *s; n--) *e++ = *s++;
  *e = 0;
  return d;
}
char *strdup(const char *s) { return strcpy(static_cast<char *>(malloc(strnlen(s, -1ul) + 1)), s); }
char *strchr(const char *s, int c)
{
  for (;; s++)
  {
    if (*s == static_cast<char>(c)) return const_cast<char *>(s);
    if (!*s) return nullptr;
  }
}
char *strrchr(const char *s, int c)
{
  char *r = nullptr;
  for (;; s++)
  {
    if (*s == static_cast<char>(c)) r = const_cast<char *>(s);
    if (!*s) return r;
  }
}
void *memchr(const void *p, int c, size_t n)
{
  const unsigned char *s = static_cast<const unsigned char *>(p);
  for (; n; n--, s++)
    if (*s == static_cast<unsigned char>(c)) return const_cast<unsigned char *>(s);
  return nullptr;
}
char *strstr(const char *s, const char *t)
{
  size_t n = strnlen(t, -1ul);
  for (;; s++)
  {
    if (strncmp(s, t, n) == 0) return const_cast<char *>(s);
    if (!*s) return nullptr;
  }
}
size_t strspn(const char *s, const char *set)
{
  size_t i = 0;
  while (s[i] && strchr(set, s[i])) i++;
  return i;
}
size_t strcspn(const char *s, const char *set)
{
  size_t i = 0;
  while (s[i] && !strchr(set, s[i])) i++;
  return i;
}
char *strpbrk(const char *s, const char *set)
{
  s += strcspn(s, set);
  return *s ? const_cast<char *>(s) : nullptr;
}

// Numbers beyond 2^62 are out of bounds.
static unsigned long digits(const char *s, char **end, int base, bool *neg)
{
  const char *p = s;
  while (isspace(static_cast<unsigned char>(*p))) p++;
  *neg = *p == '-';
  if (*p == '-' || *p == '+') p++;
  if ((base == 0 || base == 16) && *p == '0' && (p[1] | 32) == 'x' && isxdigit(static_cast<unsigned char>(p[2]))) { p += 2; base = 16; }
  if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned long v = 0;
  bool any = false;
  for (;; p++)
  {
    int c = static_cast<unsigned char>(*p), d;
    if (isdigit(c)) d = c - '0';
    else if (isalpha(c)) d = (c | 32) - 'a' + 10;
    else break;
    if (d >= base) break;
    if (v > 1ul << 56) abort();
    v = v * base + d;
    any = true;
  }
  if (end) *end = const_cast<char *>(any ? p : s);
  return v;
}
long strtol(const char *s, char **end, int base)
{
  bool neg;
  unsigned long v = digits(s, end, base, &neg);
  return neg ? -static_cast<long>(v) : v;
}
unsigned long strtoul(const char *s, char **end, int base)
{
  bool neg;
  unsigned long v = digits(s, end, base, &neg);
  return neg ? -v : v;
}
long long strtoll(const char *s, char **end, int base) { return strtol(s, end, base); }
unsigned long long strtoull(const char *s, char **end, int base) { return strtoul(s, end, base); }
long __isoc23_strtol(const char *s, char **end, int base) { return strtol(s, end, base); }
unsigned long __isoc23_strtoul(const char *s, char **end, int base) { return strtoul(s, end, base); }
long long __isoc23_strtoll(const char *s, char **end, int base) { return strtol(s, end, base); }
unsigned long long __isoc23_strtoull(const char *s, char **end, int base) { return strtoul(s, end, base); }
int atoi(const char *s) { return static_cast<int>(strtol(s, nullptr, 10)); }
long atol(const char *s) { return strtol(s, nullptr, 10); }
long long atoll(const char *s) { return strtol(s, nullptr, 10); }
int abs(int n) { return n < 0 ? -n : n; }
long labs(long n) { return n < 0 ? -n : n; }

int putchar(int c)
{
  char b = static_cast<char>(c);
  rtcg_write(1, &b, 1);
  return static_cast<unsigned char>(b);
}
int puts(const char *s)
{
  rtcg_write(1, s, strnlen(s, -1ul));
  putchar('\n');
  return 1;
}
int getchar() { return rtcg_getc(); }
}
