A='ruy/allocator.cc'
S='ruy/system_aligned_alloc.cc'
SEEDS=[
dict(id='m01-main-block-leak', property='M01', flags='-O1', timeout=100,
 needs='a second multiplication that outgrows the scratch memory kept from the first one',
 breaks='growing the scratch buffer no longer frees the old one: every growth leaks the previous buffer',
 edits=[(A,'''  detail::SystemAlignedFree(ptr_);
  for''','''  for''')],
 demo='''
#include <malloc.h>
#include <cstdio>
#include "ruy/allocator.h"
static long used() { struct mallinfo2 m = mallinfo2(); return (long)(m.uordblks + m.hblkhd); }
int main() {
  ruy::Allocator a;
  long before = used();
  long n = 1 << 16;
  for (int i = 0; i < 200; i++) {
    for (int k = 0; k < 2; k++) a.AllocateBytes(n + i * 1024);
    a.FreeAll();
  }
  long after = used();
  printf("in use %ld\\n", after - before);
  return after - before > 16 * n;
}
'''),
dict(id='m01-round16', property='M01', flags='-O1', timeout=100,
 needs='a scratch request whose size is not a multiple of the block alignment, followed by another, served from the kept buffer',
 breaks='sizes are rounded to 16 bytes, so later scratch buffers lose the promised alignment and two threads\' counters can share a cache line',
 edits=[(A,'round_up_pot(num_bytes, detail::kMinimumBlockAlignment)','round_up_pot(num_bytes, 16)')],
 demo='''
#include <cstdint>
#include <cstdio>
#include "ruy/allocator.h"
int main() {
  ruy::Allocator a;
  int bad = 0;
  for (int round = 0; round < 3; round++) {
    for (int n = 1; n < 300; n += 7) bad += reinterpret_cast<std::uintptr_t>(a.AllocateBytes(n)) % 64 != 0;
    a.FreeAll();
  }
  printf("%d misaligned\\n", bad);
  return bad != 0;
}
'''),
]
