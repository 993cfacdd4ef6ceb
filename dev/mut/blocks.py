B='ruy/block_map.cc'
A=['B01','B02']
MUT=[
('coords-kernel','bug',['B01'],B,'''  *end =
      *start + block_map.small_block_dims[side] +
      (block < block_map.large_blocks[side] ? block_map.kernel_dims[side] : 0);''','''  *end =
      *start + block_map.small_block_dims[side] +
      (block <= block_map.large_blocks[side] ? block_map.kernel_dims[side] : 0);'''),
('coords-wrongside','bug',['B01'],B,'''std::min(block, block_map.large_blocks[side])''','''std::min(block, block_map.large_blocks[Side::kLhs])'''),
('coords-pair','bug',['B01'],B,'''GetBlockMatrixCoords(side, block_map, block[side], &(*start)[side],''','''GetBlockMatrixCoords(side, block_map, block[Side::kRhs], &(*start)[side],'''),
('large-floor','bug',['B01'],B,'''      round_up_pot(rows - (small_block_rows << num_blocks_of_rows_log2),
                   kernel_rows) >>''','''      round_down_pot(rows - (small_block_rows << num_blocks_base_log2),
                   kernel_rows) >>'''),
('large-othershift','bug',['B01'],B,'''      round_up_pot(cols - (small_block_cols << num_blocks_of_cols_log2),
                   kernel_cols) >>
      pot_log2(kernel_cols);''','''      round_up_pot(cols - (small_block_cols << num_blocks_of_cols_log2),
                   kernel_cols) >>
      pot_log2(kernel_rows);'''),
('small-noround','bug',['B01'],B,'round_down_pot(cols >> num_blocks_of_cols_log2, kernel_cols);','(cols >> num_blocks_of_cols_log2);'),
('small-swapk','bug',['B01'],B,'round_down_pot(cols >> num_blocks_of_cols_log2, kernel_cols);','round_down_pot(cols >> num_blocks_of_cols_log2, kernel_rows);'),
('rect-neg','bug',['B01'],B,'''  if ((denom << (log2_quotient + 1)) <= num) {
    log2_quotient++;
  }''','''  if ((denom << (log2_quotient + 1)) < num - 1) {
    log2_quotient++;
  }'''),
('both-rect','bug',['B01'],B,'  if (rows > cols) {','''  if (rows > cols * 64) *cols_rectangularness_log2 = 1;
  if (rows > cols) {'''),
('dims-wrong','bug',['B01'],B,'block_map->dims[Side::kRhs] = cols;','block_map->dims[Side::kRhs] = cols & ~63;'),
('hilbert-y','bug',['B02'],B,'y = ry ? (y + s) : tmp;','y = ry ? (y + s) : x;'),
('hilbert-x','bug',['B02'],B,'x = rx ? (x + s) : x;','x = ry ? (x + s) : x;'),
('hilbert-ry','bug',['B02'],B,'bool ry = (t & 1) ^ rx;','bool ry = (t & 1) & rx;'),
('hilbert-s','bug',['B02'],B,'std::uint32_t tmp = rx ? (s - 1 - x) : x;','std::uint32_t tmp = rx ? (s - x) : x;'),
('hilbert-iter','bug',['B02'],B,'for (int sb = 0; sb < size_log2; sb++) {','for (int sb = 0; sb < size_log2 && sb < 8; sb++) {'),
('z-mask','bug',['B02'],B,'0x00f000f0','0x00f000f8'),
('u-swap','bug',['B02'],B,'(*local_pos)[Side::kLhs] ^= (*local_pos)[Side::kRhs];','(*local_pos)[Side::kLhs] |= (*local_pos)[Side::kRhs];'),
('rect-shift','bug',['B02'],B,'''    const int rectangular_offset = (rectangular_index & mask)
                                   << block_map.num_blocks_base_log2;''','''    const int rectangular_offset = (rectangular_index & mask & 255)
                                   << block_map.num_blocks_base_log2;'''),
('linear','bug',['B02'],B,'square_index >> size_log2;','(square_index & 0xfffff) >> size_log2;'),
('sq-mask','bug',['B02'],B,'''      1u << (2 * block_map.num_blocks_base_log2);''','''      1u << (2 * std::min(block_map.num_blocks_base_log2, 6));'''),
# refactorings
('ref-coords','ref',A,B,'''  *end =
      *start + block_map.small_block_dims[side] +
      (block < block_map.large_blocks[side] ? block_map.kernel_dims[side] : 0);''','''  int len = block_map.small_block_dims[side];
  if (block_map.large_blocks[side] > block) {
    len += block_map.kernel_dims[side];
  }
  *end = *start + len;'''),
('ref-coords2','ref',A,B,'''  for (Side side : {Side::kLhs, Side::kRhs}) {
    GetBlockMatrixCoords(side, block_map, block[side], &(*start)[side],
                         &(*end)[side]);
  }''','''  GetBlockMatrixCoords(Side::kLhs, block_map, block[Side::kLhs], &(*start)[Side::kLhs],
                       &(*end)[Side::kLhs]);
  GetBlockMatrixCoords(Side::kRhs, block_map, block[Side::kRhs], &(*start)[Side::kRhs],
                       &(*end)[Side::kRhs]);'''),
('ref-hilbert','ref',A,B,'''  for (int sb = 0; sb < size_log2; sb++) {
    std::uint32_t s = 1 << sb;''','''  int sb = size_log2;
  for (std::uint32_t s = 1; sb > 0; s <<= 1, sb--) {'''),
('ref-hilbert2','ref',A,B,'''    std::uint32_t tmp = rx ? (s - 1 - x) : x;
    x = ry ? x : rx ? (s - 1 - y) : y;
    y = ry ? (y + s) : tmp;
    x = rx ? (x + s) : x;''','''    if (!ry) {
      if (rx) {
        x = s - 1 - x;
        y = s - 1 - y;
      }
      std::swap(x, y);
    }
    x += s * rx;
    y += s * ry;'''),
('ref-div','ref',A,B,'''      round_up_pot(rows - (small_block_rows << num_blocks_of_rows_log2),
                   kernel_rows) >>
      pot_log2(kernel_rows);''','''      (rows - (small_block_rows << num_blocks_of_rows_log2)) >> kernel_rows_log2;'''),
('ref-switch','ref',A,B,'''  switch (block_map.traversal_order) {
    case BlockMapTraversalOrder::kFractalZ:
      DecodeTraversalFractalZ(square_index, &local_pos);
      break;''','''  if (block_map.traversal_order == BlockMapTraversalOrder::kFractalZ) {
      DecodeTraversalFractalZ(square_index, &local_pos);
  } else switch (block_map.traversal_order) {'''),
('ref-rect','ref',A,B,'''  for (Side side : {Side::kLhs, Side::kRhs}) {
    const std::uint32_t mask''','''  for (int s_ = 0; s_ < 2; s_++) { const Side side = static_cast<Side>(s_);
    const std::uint32_t mask'''),
('ref-flq','ref',A,B,'''  if ((denom << (log2_quotient + 1)) <= num) {
    log2_quotient++;
  }''','''  log2_quotient += ((denom << (log2_quotient + 1)) <= num) ? 1 : 0;'''),
]
