// A simple LZ4 block compressor (literals only) which stands in for LZ4_compress_default where
// the data is symbolic: any valid encoding is a legal answer of the real function, and the
// decompressor it is read back with is the real one.
int model_LZ4_compress_default(const char *src, char *dst, int n, int cap) {
  int o = 0;
  int need = 1 + n + (n >= 15 ? (n - 15) / 255 + 1 : 0);
  if (need > cap) return 0;
  if (n < 15) dst[o++] = (char)(n << 4);
  else { int r = n - 15; dst[o++] = (char)0xf0; while (r >= 255) { dst[o++] = (char)255; r -= 255; } dst[o++] = (char)r; }
  for (int i = 0; i < n; i++) dst[o++] = src[i];
  return o;
}
// A plain decoder of the LZ4 block format, byte by byte.
int model_LZ4_decompress_safe(const char *s, char *d, int n, int cap) {
  const unsigned char *src = (const unsigned char *)s; unsigned char *dst = (unsigned char *)d;
  int i = 0, o = 0;
  if (n <= 0) return -1;
  if (cap < 0) return -1;
  for (;;) {
    if (i >= n) return -1;
    unsigned t = src[i++]; int l = t >> 4;
    if (l == 15) { unsigned b; do { if (i >= n) return -1; b = src[i++]; l += b; } while (b == 255); }
    if (l > n - i || l > cap - o) return -1;
    for (int k = 0; k < l; k++) dst[o++] = src[i++];
    if (i == n) return o;
    if (n - i < 2) return -1;
    int off = src[i] | src[i + 1] << 8; i += 2;
    if (off == 0 || off > o) return -1;
    int m = t & 15;
    if (m == 15) { unsigned b; do { if (i >= n) return -1; b = src[i++]; m += b; } while (b == 255); }
    m += 4;
    if (m > cap - o) return -1;
    for (int k = 0; k < m; k++) { dst[o] = dst[o - off]; o++; }
  }
}
// An ideal hash: equal answers for equal bytes, answers which differ in every byte for different
// bytes. Stands in for CityHash128 where the check is about what the driver hashes and compares.
struct model_h { unsigned long lo, hi; };
static char *model_tab[24]; static unsigned long model_len[24]; static int model_n;
extern void *malloc(unsigned long);
struct model_h model_CityHash128(char *s, unsigned long n) {
  int k = 0;
  for (; k < model_n; k++) {
    if (model_len[k] != n) continue;
    unsigned char d = 0;
    for (unsigned long i = 0; i < n; i++) d |= (unsigned char)(s[i] ^ model_tab[k][i]);
    if (d == 0) break;
  }
  if (k == model_n) {
    if (model_n == 24) __builtin_trap();
    char *c = malloc(n + 1);
    for (unsigned long i = 0; i < n; i++) c[i] = s[i];
    model_tab[k] = c; model_len[k] = n; model_n++;
  }
  struct model_h h = {0x0101010101010101ul * (unsigned long)(k + 1), 0x0101010101010101ul * (unsigned long)(k + 101)};
  return h;
}
