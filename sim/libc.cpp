// What the library passes to the C library, as memory accesses of the running simulated thread: calls that read or
// write static data are preemption points like any other access. Only the library build of simm is linked to these.
#include "core.h"
#include <stdarg.h>
#include <time.h>
#include <string.h>
namespace sim { namespace fiber { extern int cur; void onLoad(const void *); void onStore(const void *); } }
using sim::fiber::cur;
#define R(p) do{ if(cur >= 0) sim::fiber::onLoad(p); }while(0)
#define W(p) do{ if(cur >= 0) sim::fiber::onStore(p); }while(0)
// the strings a format reads
static void formatArgs(const char *f, va_list ap)
{
	if(cur < 0) return;
	for(; *f; f++){
		if(*f != '%') continue;
		f++;
		if(*f == '%') continue;
		int l = 0, ld = 0;
		for(;; f++){
			if(*f == '*'){ va_arg(ap, int); continue; }
			if(*f == 'l' || *f == 'z' || *f == 'j' || *f == 't'){ l++; continue; }
			if(*f == 'L'){ ld = 1; continue; }
			if(*f && strchr("0123456789.-+ #h'", *f)) continue;
			break;
		}
		switch(*f){
		case 's': { const char *s = va_arg(ap, const char *); if(s) R(s); break; }
		case 'p': va_arg(ap, void *); break;
		case 'e': case 'f': case 'g': case 'a': case 'E': case 'F': case 'G': case 'A': if(ld) va_arg(ap, long double); else va_arg(ap, double); break;
		case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': case 'c': if(l) va_arg(ap, long); else va_arg(ap, int); break;
		default: return;
		}
	}
}
extern "C" {
size_t simc_strlen(const char *s) { R(s); return strlen(s); }
int simc_strcmp(const char *a, const char *b) { R(a); R(b); return strcmp(a, b); }
int simc_strncmp(const char *a, const char *b, size_t n) { if(n){ R(a); R(b); } return strncmp(a, b, n); }
int simc_memcmp(const void *a, const void *b, size_t n) { if(n){ R(a); R(b); } return memcmp(a, b, n); }
char *simc_strcpy(char *d, const char *s) { R(s); char *r = strcpy(d, s); W(d); return r; }
char *simc_strncpy(char *d, const char *s, size_t n) { if(n) R(s); char *r = strncpy(d, s, n); if(n) W(d); return r; }
char *simc_strcat(char *d, const char *s) { R(s); R(d); char *r = strcat(d, s); W(d); return r; }
char *simc_strncat(char *d, const char *s, size_t n) { if(n) R(s); R(d); char *r = strncat(d, s, n); W(d); return r; }
void *simc_memcpy(void *d, const void *s, size_t n) { if(n) R(s); void *r = memcpy(d, s, n); if(n) W(d); return r; }
void *simc_memmove(void *d, const void *s, size_t n) { if(n) R(s); void *r = memmove(d, s, n); if(n) W(d); return r; }
void *simc_memset(void *d, int c, size_t n) { void *r = memset(d, c, n); if(n) W(d); return r; }
void *simc_asan_memcpy(void *d, const void *s, size_t n) { return simc_memcpy(d, s, n); }
void *simc_asan_memmove(void *d, const void *s, size_t n) { return simc_memmove(d, s, n); }
void *simc_asan_memset(void *d, int c, size_t n) { return simc_memset(d, c, n); }
char *simc_strstr(const char *a, const char *b) { R(a); R(b); return (char *)strstr(a, b); }
char *simc_strchr(const char *a, int c) { R(a); return (char *)strchr(a, c); }
size_t simc_strftime(char *d, size_t n, const char *f, const struct tm *t) { R(t); size_t r = strftime(d, n, f, t); if(n) W(d); return r; }
int simc_vsnprintf(char *d, size_t n, const char *f, va_list ap)
{
	va_list a;
	va_copy(a, ap);
	formatArgs(f, a);
	va_end(a);
	int r = vsnprintf(d, n, f, ap);
	if(n && d) W(d);
	return r;
}
int simc_snprintf(char *d, size_t n, const char *f, ...)
{
	va_list ap;
	va_start(ap, f);
	int r = simc_vsnprintf(d, n, f, ap);
	va_end(ap);
	return r;
}
int simc_sprintf(char *d, const char *f, ...)
{
	va_list ap, a;
	va_start(ap, f);
	va_copy(a, ap);
	formatArgs(f, a);
	va_end(a);
	int r = vsprintf(d, f, ap);
	va_end(ap);
	W(d);
	return r;
}
}
