/* files of the file logger, as far as its contract needs: the macros send every stdio call of the code to a recorder */
static struct { int open, opens, closes; uint64_t n; } fl_f[4]; static int fl_nf, fl_oom, fl_lost; static char fl_obj[4];
static char fl_err[2];
#undef stderr
#undef stdout
#define stderr ((FILE *)&fl_err[0])
#define stdout ((FILE *)&fl_err[1])
#define FL_FP(i) ((FILE *)&fl_obj[i])
static void fl_reset(void) { for (int i = 0; i < 4; i++) fl_f[i].open = fl_f[i].opens = fl_f[i].closes = 0, fl_f[i].n = 0; fl_nf = 1; fl_oom = fl_lost = 0; }
static void fl_emit(FILE *f, const char *p, uint64_t n);
static FILE *fl_fopen(const char *name, const char *mode);
static int fl_fclose(FILE *f);
static int fl_fprintf(FILE *f, const char *fmt, ...)
{
	if (f == stderr || f == stdout) return 0;
	va_list ap; va_start(ap, fmt); uint64_t t = 0; static const char nl = '\n';
	for (int i = 0; i < 12 && fmt[i]; i++) {
		if (fmt[i] == '%' && fmt[i + 1] == '.' && fmt[i + 2] == '*' && fmt[i + 3] == 's') { int k = va_arg(ap, int); const char *s = va_arg(ap, const char *); ENSURES(k >= 0, "no unbounded read of the text"); fl_emit(f, s, (uint64_t)k); t += (uint64_t)k; i += 3; }
		else if (fmt[i] == '%') ENSURES(0, "STUB unknown format");
		else { char c = fmt[i]; fl_emit(f, &c, 1); t++; }
	}
	va_end(ap); return (int)t;
}
static size_t fl_fwrite(const void *p, size_t a, size_t b, FILE *f) { fl_emit(f, p, (uint64_t)a * b); return b; }
static int fl_fputc(int c, FILE *f) { char x = (char)c; fl_emit(f, &x, 1); return (unsigned char)c; }
static int fl_fputs(const char *s, FILE *f) { ENSURES(0, "STUB fputs"); return 0; }
#undef fopen
#undef fclose
#define fopen fl_fopen
#define fclose fl_fclose
#define fprintf fl_fprintf
#define fwrite fl_fwrite
#define fputc fl_fputc
#define putc fl_fputc
#define fputs fl_fputs
#define snprintf fl_snprintf
static int fl_snprintf(char *b, size_t n, const char *fmt, ...) { ENSURES(n <= 256, "the path buffer's size"); if (n) b[n - 1] = 0, b[0] = 'x'; return 5; }
