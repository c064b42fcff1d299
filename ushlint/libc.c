/* Meaning of C library functions the analysis has no built-in model for.  Only interpreted, never linked or run. */
#include <stddef.h>

#define F(name) ush_libc_##name

void *F(memchr)(const void *s, int c, size_t n)
{
        const unsigned char *p = s;
        for (size_t i = 0; i < n; i++) {
                if (p[i] == (unsigned char)c)
                        return (void*)(p + i);
        }
        return NULL;
}

char *F(strstr)(const char *s, const char *t)
{
        for (;; s++) {
                size_t i = 0;
                while (t[i] != '\0' && s[i] == t[i])
                        i++;
                if (t[i] == '\0')
                        return (char*)s;
                if (*s == '\0')
                        return NULL;
        }
}

static int F(in)(const char *t, char c)
{
        for (; *t != '\0'; t++) {
                if (*t == c)
                        return 1;
        }
        return 0;
}

size_t F(strspn)(const char *s, const char *t)
{
        size_t n = 0;
        while (s[n] != '\0' && F(in)(t, s[n]))
                n++;
        return n;
}

size_t F(strcspn)(const char *s, const char *t)
{
        size_t n = 0;
        while (s[n] != '\0' && !F(in)(t, s[n]))
                n++;
        return n;
}

char *F(strpbrk)(const char *s, const char *t)
{
        for (; *s != '\0'; s++) {
                if (F(in)(t, *s))
                        return (char*)s;
        }
        return NULL;
}

char *F(stpcpy)(char *d, const char *s)
{
        while ((*d = *s) != '\0') {
                d++;
                s++;
        }
        return d;
}

size_t F(strlcpy)(char *d, const char *s, size_t n)
{
        size_t i = 0;
        if (n > 0) {
                for (; i + 1 < n && s[i] != '\0'; i++)
                        d[i] = s[i];
                d[i] = '\0';
        }
        while (s[i] != '\0')
                i++;
        return i;
}

void *F(memmove)(void *d, const void *s, size_t n)
{
        unsigned char *a = d;
        const unsigned char *b = s;
        if (a <= b) {
                for (size_t i = 0; i < n; i++)
                        a[i] = b[i];
        } else {
                for (size_t i = n; i > 0; i--)
                        a[i - 1] = b[i - 1];
        }
        return d;
}

int F(isdigit)(int c) { return c >= '0' && c <= '9'; }
int F(isupper)(int c) { return c >= 'A' && c <= 'Z'; }
int F(islower)(int c) { return c >= 'a' && c <= 'z'; }
int F(isalpha)(int c) { return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'); }
int F(isalnum)(int c) { return (c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'); }
int F(isxdigit)(int c) { return (c >= '0' && c <= '9') || (c >= 'A' && c <= 'F') || (c >= 'a' && c <= 'f'); }
int F(isprint)(int c) { return c >= 32 && c < 127; }
int F(isgraph)(int c) { return c > 32 && c < 127; }
int F(iscntrl)(int c) { return (c >= 0 && c < 32) || c == 127; }
int F(isspace)(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int F(isblank)(int c) { return c == ' ' || c == '\t'; }
int F(ispunct)(int c) { return c > 32 && c < 127 && !F(isalnum)(c); }
int F(toupper)(int c) { return (c >= 'a' && c <= 'z') ? c - 32 : c; }
int F(tolower)(int c) { return (c >= 'A' && c <= 'Z') ? c + 32 : c; }
int F(abs)(int x) { return x < 0 ? -x : x; }

int F(strncasecmp)(const char *a, const char *b, size_t n)
{
        for (size_t i = 0; i < n; i++) {
                int x = F(tolower)((unsigned char)a[i]), y = F(tolower)((unsigned char)b[i]);
                if (x != y || x == 0)
                        return x - y;
        }
        return 0;
}

int F(strcasecmp)(const char *a, const char *b)
{
        for (size_t i = 0;; i++) {
                int x = F(tolower)((unsigned char)a[i]), y = F(tolower)((unsigned char)b[i]);
                if (x != y || x == 0)
                        return x - y;
        }
}
