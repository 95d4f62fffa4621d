const char *vsim_where = "";
FILE *siminfo_file = NULL;
char vsim_dir[4096] = ".";
static FILE *vsim_logfile = NULL;
static uint64_t vsim_tape = 0;
static unsigned long long vsim_ncount = 1;

uint64_t vsim_hash(uint64_t x) {
  x += 0x9e3779b97f4a7c15ULL; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL; x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}
void vsim_srandom(unsigned long *state, uint64_t seed) { for (int i = 0; i < 7; i++) state[i] = vsim_hash(seed + i); }
void vsim_log(const char *fmt, ...) {
  va_list ap;
  if (!vsim_logfile) return;
  va_start(ap, fmt); vfprintf(vsim_logfile, fmt, ap); va_end(ap);
  fputc('\n', vsim_logfile);
}
#define VSIM_VISITS 65536
static struct { long long uid; long index; long n; } vsim_visits[VSIM_VISITS];
/* the k-th visit of particle uid to component index has an outcome that depends on nothing but (tape, uid, index, k) */
int vsim_draw(long long uid, long index, int sides) {
  uint64_t h = vsim_hash((uint64_t)uid * 1000003ULL + index);
  unsigned at = h % VSIM_VISITS;
  while (vsim_visits[at].n && (vsim_visits[at].uid != uid || vsim_visits[at].index != index)) at = (at + 1) % VSIM_VISITS;
  vsim_visits[at].uid = uid; vsim_visits[at].index = index;
  long k = vsim_visits[at].n++;
  return (int)(vsim_hash(vsim_tape ^ vsim_hash((uint64_t)uid ^ vsim_hash((uint64_t)index ^ vsim_hash((uint64_t)k)))) % (uint64_t)sides);
}
void vsim_place(const char *name, Coords c, Rotation t) {
  vsim_log("P %s %.17g %.17g %.17g %.17g %.17g %.17g %.17g %.17g %.17g %.17g %.17g %.17g", name, c.x, c.y, c.z, t[0][0], t[0][1], t[0][2],
           t[1][0], t[1][1], t[1][2], t[2][0], t[2][1], t[2][2]);
}
Coords coords_set(MCNUM x, MCNUM y, MCNUM z) { Coords a; a.x = x; a.y = y; a.z = z; return a; }
Coords coords_get(Coords a, MCNUM *x, MCNUM *y, MCNUM *z) { *x = a.x; *y = a.y; *z = a.z; return a; }
Coords coords_add(Coords a, Coords b) { return coords_set(a.x + b.x, a.y + b.y, a.z + b.z); }
Coords coords_sub(Coords a, Coords b) { return coords_set(a.x - b.x, a.y - b.y, a.z - b.z); }
Coords coords_neg(Coords a) { return coords_set(-a.x, -a.y, -a.z); }
double coords_len(Coords a) { return sqrt(a.x * a.x + a.y * a.y + a.z * a.z); }
int coords_test_zero(Coords a) { return a.x == 0 && a.y == 0 && a.z == 0; }
void rot_set_rotation(Rotation t, double phx, double phy, double phz) {
  double cx = cos(phx), sx = sin(phx), cy = cos(phy), sy = sin(phy), cz = cos(phz), sz = sin(phz);
  t[0][0] = cy * cz;  t[0][1] = sx * sy * cz + cx * sz;  t[0][2] = sx * sz - cx * sy * cz;
  t[1][0] = -cy * sz; t[1][1] = cx * cz - sx * sy * sz;  t[1][2] = sx * cz + cx * sy * sz;
  t[2][0] = sy;       t[2][1] = -sx * cy;                t[2][2] = cx * cy;
}
int rot_test_identity(Rotation t) { return t[0][0] + t[1][1] + t[2][2] == 3; }
void rot_mul(Rotation t1, Rotation t2, Rotation t3) {
  Rotation r;
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r[i][j] = t1[i][0] * t2[0][j] + t1[i][1] * t2[1][j] + t1[i][2] * t2[2][j];
  memcpy(t3, r, sizeof(Rotation));
}
void rot_copy(Rotation dest, Rotation src) { memcpy(dest, src, sizeof(Rotation)); }
void rot_transpose(Rotation src, Rotation dst) { for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) dst[i][j] = src[j][i]; }
Coords rot_apply(Rotation t, Coords a) {
  return coords_set(t[0][0] * a.x + t[0][1] * a.y + t[0][2] * a.z, t[1][0] * a.x + t[1][1] * a.y + t[1][2] * a.z,
                    t[2][0] * a.x + t[2][1] * a.y + t[2][2] * a.z);
}
char *stracpy(char *dst, const char *src, size_t n) { size_t i; for (i = 0; i + 1 < n && src[i]; i++) dst[i] = src[i]; if (n) dst[i] = 0; return dst; }
FILE *siminfo_init(FILE *f) {
  char path[5000];
  if (siminfo_file) return siminfo_file;
  snprintf(path, sizeof path, "%s/mccode.sim", vsim_dir);
  siminfo_file = fopen(path, "w");
  if (siminfo_file) fprintf(siminfo_file, "begin instrument: %s\nend instrument\n", instrument_name);
  return siminfo_file;
}
void siminfo_close(void) { if (siminfo_file) fclose(siminfo_file); siminfo_file = NULL; }
void mcset_ncount(unsigned long long count) { vsim_ncount = count; }
long sort_absorb_last(_class_particle *particles, _class_particle *pbuffer, long len, long buffer_len, long flag_split, long *multiplier) {
  long n = 0;
  for (long i = 0; i < len; i++) if (!particles[i]._absorbed) pbuffer[n++] = particles[i];
  long mult = n ? buffer_len / n : 0;
  if (!flag_split || mult < 1) mult = n ? 1 : 0;
  long out = 0;
  for (long i = 0; i < n; i++) for (long m = 0; m < mult; m++) { particles[out] = pbuffer[i]; particles[out++].p /= mult; }
  if (multiplier) *multiplier = mult;
  return out;
}
