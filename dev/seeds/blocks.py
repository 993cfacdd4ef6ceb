B='ruy/block_map.cc'
SRC='ruy/block_map.cc ruy/cpuinfo.cc ruy/denormal.cc'
SEEDS=[
dict(id='b01-narrow-count', property='B01', flags='-O1', timeout=60,
 needs='a very long and narrow destination, cut into more than 65535 slightly larger blocks',
 breaks='the number of larger blocks of a side is kept in sixteen bits, so for long sides the blocks no longer end at the dimension',
 edits=[('ruy/block_map.h','  SidePair<int> large_blocks;','  SidePair<unsigned short> large_blocks;'),
        (B,'std::min(block, block_map.large_blocks[side])','std::min<int>(block, block_map.large_blocks[side])')],
 demo='''
#include <cstdio>
#include <initializer_list>
#include "ruy/block_map.h"
#include "ruy/cpu_cache_params.h"
int main() {
  ruy::CpuCacheParams cp;
  cp.local_cache_size = 32 << 10;
  cp.last_level_cache_size = 1 << 20;
  int bad = 0;
  for (int rows = 8; rows <= 1 << 22; rows = rows * 11 / 8 + 15)
    for (int cols = 8; cols <= 1 << 20; cols = cols * 11 / 8 + 15) {
      ruy::BlockMap m;
      ruy::MakeBlockMap(rows, cols, 200, 1, 1, 1, 1, 4, cp, &m);
      for (ruy::Side s : {ruy::Side::kLhs, ruy::Side::kRhs}) {
        int at = 0;
        for (int b = 0; b < ruy::NumBlocksPerSide(s, m); b++) {
          int st, en;
          ruy::GetBlockMatrixCoords(s, m, b, &st, &en);
          if (st != at || en < st) bad++;
          at = en;
        }
        if (at != (s == ruy::Side::kLhs ? rows : cols)) bad++;
      }
    }
  printf("%d bad sides\\n", bad);
  return bad != 0;
}
'''),
dict(id='b02-narrow-index', property='B02', flags='-O1', timeout=60,
 needs='a destination more than 65536 times as long as wide',
 breaks='the index of the square sub-grid is kept in sixteen bits, so for very long destinations blocks past the 65536th square are visited several times or never',
 edits=[(B,'  const std::uint32_t rectangular_index =','  const std::uint16_t rectangular_index =')],
 demo='''
#include <cstdio>
#include <vector>
#include "ruy/block_map.h"
int main() {
  int bad = 0;
  for (int order = 0; order < 4; order++)
    for (int base = 0; base <= 2; base++)
      for (int rect = 0; rect <= 18; rect += rect < 4 ? 1 : 7) {
        ruy::BlockMap m;
        m.num_blocks_base_log2 = base;
        m.rectangularness_log2[ruy::Side::kLhs] = rect;
        m.rectangularness_log2[ruy::Side::kRhs] = 0;
        m.traversal_order = static_cast<ruy::BlockMapTraversalOrder>(order);
        const int nl = 1 << (base + rect), nr = 1 << base;
        std::vector<char> seen(nl * nr);
        for (int i = 0; i < nl * nr; i++) {
          ruy::SidePair<int> b;
          ruy::GetBlockByIndex(m, i, &b);
          const int l = b[ruy::Side::kLhs], r = b[ruy::Side::kRhs];
          if (l < 0 || l >= nl || r < 0 || r >= nr || seen[l * nr + r]++) bad++;
        }
      }
  printf("%d bad blocks\\n", bad);
  return bad != 0;
}
'''),
]
