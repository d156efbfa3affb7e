extern "C" uint64_t symx_shuffle(uint64_t index, uint64_t max_index, uint32_t seed) {
  return grain::random::index_shuffle(index, max_index, seed, SYMX_ROUNDS);
}
