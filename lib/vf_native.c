/* native replay runtime: loads the verifier's counterexample values and
 * diverts replaced callees to their contract stubs */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
struct vf_val { const char *name; const char *hex; };
extern const struct vf_val vf_vals[];
int vf_failures;
static int hx(char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
void vf_load(const char *name, void *p, size_t n) {
  memset(p, 0, n);
  for (const struct vf_val *v = vf_vals; v->name; ++v)
    if (!strcmp(v->name, name)) {
      size_t l = strlen(v->hex) / 2;
      for (size_t i = 0; i < l && i < n; ++i)
        ((uint8_t *)p)[i] = (uint8_t)(hx(v->hex[2 * i]) << 4 | hx(v->hex[2 * i + 1]));
      return;
    }
}
void vf_fail(const char *msg) {
  printf("REPLAY-FAILED-POSTCONDITION: %s\n", msg);
  fflush(stdout);
  ++vf_failures;
}
void vf_patch(void *from, void *to) {
  long ps = sysconf(_SC_PAGESIZE);
  uintptr_t a = (uintptr_t)from & ~(uintptr_t)(ps - 1);
  mprotect((void *)a, (size_t)ps * 2, PROT_READ | PROT_WRITE | PROT_EXEC);
  uint8_t *f = from;
  f[0] = 0x48; f[1] = 0xb8; /* movabs rax, imm64 */
  memcpy(f + 2, &to, 8);
  f[10] = 0xff; f[11] = 0xe0; /* jmp rax */
}
