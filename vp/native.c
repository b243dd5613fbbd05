/* Native execution of a harness: inputs come from a replay file or from a
 * pseudo random generator. Included after the harness.
 *   prog replay FILE
 *   prog random SEED SECONDS OUT
 */
#undef malloc
#undef calloc
#undef realloc
#undef free
#undef memcpy
#undef fprintf
#undef strerror
#undef close
#undef read
#undef write
#undef errno
#include <setjmp.h>
#include <sys/wait.h>

int vp_random;	/* shape of the inputs: pseudo random */
static int vp_draw;
static const char *vp_prop;
static uint64_t *vp_vals;
static size_t vp_nvals, vp_pos, vp_cap;
static int vp_failed;
static jmp_buf vp_jmp;
static uint64_t vp_state;
static FILE *vp_out;

static uint64_t vp_next(void)
{
	uint64_t z = (vp_state += 0x9e3779b97f4a7c15ull);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}

static uint64_t vp_record(uint64_t v)
{
	if (vp_pos == vp_cap) {
		vp_cap = vp_cap ? vp_cap * 2 : 4096;
		vp_vals = (realloc)(vp_vals, vp_cap * sizeof(uint64_t));
	}
	vp_vals[vp_pos++] = v;
	return v;
}

uint64_t vp_in_range(uint64_t lo, uint64_t hi)
{
	uint64_t v, n = hi - lo;
	if (!vp_draw) {
		if (vp_pos >= vp_nvals)
			return lo;
		v = vp_vals[vp_pos++];
		return v < lo || v > hi ? lo : v;
	}
	v = vp_next();
	if (n <= 64)
		return vp_record(lo + v % (n + 1));
	switch (v & 7) {
	case 0: v = lo + ((v >> 8) & 7); break;
	case 1: v = hi - ((v >> 8) & 7); break;
	case 2: v = lo + ((v >> 8) & 63); break;
	case 3: v = lo + (n == UINT64_MAX ? v >> 8 : ((v >> 8) % (n + 1))
			>> ((v >> 3) & 31)); break;
	case 4: v = lo + (((uint64_t)1 << ((v >> 8) & 63)) +
			((v >> 16) & 3) - 1); break;
	case 5: v = lo + (((v >> 8) & 0xffff)); break;
	default: v = n == UINT64_MAX ? v : lo + v % (n + 1); break;
	}
	if (v < lo || v > hi)
		v = lo + (n == UINT64_MAX ? v : v % (n + 1));
	return vp_record(v);
}

uint64_t vp_in(void)
{
	return vp_in_range(0, UINT64_MAX);
}

void vp_assume_failed(void)
{
	if (!vp_draw && !vp_failed)
		printf("ASSUME failed\n");
	longjmp(vp_jmp, 1);
}

void vp_check_failed(const char *label, const char *expr)
{
	/* Random inputs: only what concerns the property */
	if (vp_prop != NULL) {
		size_t n = strcspn(label, ":"), m = strlen(vp_prop), i;
		for (i = 0; i + m <= n; i++) {
			if (strncmp(label + i, vp_prop, m) == 0)
				break;
		}
		if (i + m > n)
			return;
	}
	printf("FAILED VP:%s: %s\n", label, expr);
	fflush(stdout);
	vp_failed = 1;
}

void vp_reach(const char *label)
{
	if (getenv("VP_REACH"))
		printf("REACH %s\n", label);
}

static void vp_dump(const char *path)
{
	size_t i;
	FILE *f = fopen(path, "w");
	if (f != NULL)
		(fprintf)(f, "R\n");
	for (i = 0; f != NULL && i < vp_pos; i++)
		(fprintf)(f, "%llu\n", (unsigned long long)vp_vals[i]);
	if (f != NULL)
		fclose(f);
}

static void vp_one(void)
{
	vp_pos = 0;
	if (setjmp(vp_jmp) == 0)
		vp_main();
}

/* Run by the sanitizers before the end of the process */
static const char *vp_dump_path;
void __asan_on_error(void);
void __asan_on_error(void)
{
	if (vp_dump_path != NULL)
		vp_dump(vp_dump_path);
}

static void vp_hang(int sig)
{
	(void)sig;
	vp_dump(vp_dump_path);
	printf("FAILED VP:HANG: does not end\n");
	fflush(stdout);
	_exit(1);
}

int main(int argc, char *argv[])
{
	char line[256];
	unsigned long long count = 0;
	if (argc > 2 && strcmp(argv[1], "replay") == 0) {
		FILE *f = fopen(argv[2], "r");
		if (f == NULL)
			return 3;
		while (fgets(line, sizeof(line), f) != NULL) {
			if (line[0] == 'R')
				vp_random = 1;
			if (line[0] >= '0' && line[0] <= '9')
				vp_record(strtoull(line, NULL, 10));
		}
		fclose(f);
		vp_nvals = vp_pos;
		vp_one();
		printf("%s\n", vp_failed ? "REPRODUCED" : "no failure");
		return vp_failed ? 1 : 0;
	}
	if (argc > 4 && strcmp(argv[1], "random") == 0) {
		time_t end = time(NULL) + atoi(argv[3]);
		uint64_t base = strtoull(argv[2], NULL, 10) << 32;
		vp_random = vp_draw = 1;
		vp_dump_path = argv[4];
		vp_prop = argc > 5 ? argv[5] : NULL;
		/* Batches in children, so that memory is not exhausted */
		while (time(NULL) < end) {
			int i, status = 0;
			pid_t pid = fork();
			if (pid == 0) {
				signal(SIGALRM, &vp_hang);
				for (i = 0; i < 2000 && !vp_failed; i++) {
					if (i % 64 == 63 && time(NULL) >= end)
						break;
					vp_state = base + count + i;
					alarm(10);
					vp_one();
				}
				if (vp_failed)
					vp_dump(argv[4]);
				fflush(stdout);
				_exit(vp_failed);
			}
			if (pid < 0 || waitpid(pid, &status, 0) < 0)
				return 3;
			if (status != 0) {
				printf("runs about %llu\n", count);
				return 1;
			}
			count += 2000;
		}
		printf("runs %llu\n", count);
		return 0;
	}
	return 3;
}
